"""the clause database: clauses, watch lists, links of two-literal clauses, free slots, counts, proof log (C12, C13, C14, C17)"""
import clause
import u_assign
import u_cert
from clause import CDBSIG
from unit import Unit

RLIMIT = 100

STD = r"""
/// stand-in for HashMap<(Lit, Lit), ClauseId>
#[verifier::external_body]
pub struct LinkMap { m: std::collections::HashMap<u64, u32> }
impl LinkMap {
    pub uninterp spec fn map(&self) -> Map<(Lit, Lit), ClauseId>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: (Lit, Lit), v: ClauseId) -> (r: Option<ClauseId>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &(Lit, Lit)) -> (r: Option<ClauseId>) ensures final(self).map() == old(self).map().remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &(Lit, Lit)) -> (r: Option<&ClauseId>) ensures r.is_some() == self.map().contains_key(*k), r.is_some() ==> *r.unwrap() == self.map()[*k] { unimplemented!() }
}
/// Ord of Lit is derived from its only field
pub fn lit_min(a: Lit, b: Lit) -> (r: Lit) ensures r == (if b.ord() < a.ord() { b } else { a }) { if b.ordinal.get() < a.ordinal.get() { b } else { a } }
pub fn lit_max(a: Lit, b: Lit) -> (r: Lit) ensures r == (if b.ord() < a.ord() { a } else { b }) { if b.ordinal.get() < a.ordinal.get() { a } else { b } }
pub fn verif_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r.is_some() == o.is_some(), r.is_some() ==> r.unwrap() == *o.unwrap() { match o { Some(x) => Some(*x), None => None } }
pub fn verif_one(a: &[Lit; 1]) -> (r: &[Lit]) ensures r@ =~= seq![a@[0]] { a }
/// Iterator::position of a slice iterator
pub fn verif_position<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],))
    ensures match r { Some(i) => i < s@.len() && f.ensures((&s@[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), false), None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((&#[trigger] s@[j],), false) }
{
    let mut i: usize = 0;
    while i < s.len() invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), false), decreases s@.len() - i {
        if f(&s[i]) { return Some(i); }
        i += 1;
    }
    None
}
"""
SPEC = r"""
// ---- lists
pub open spec fn has_cid(s: Seq<(ClauseId, Lit)>, c: ClauseId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c }
pub open spec fn once_w(s: Seq<(ClauseId, Lit)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn has_lnk(s: Seq<(Lit, ClauseId)>, o: Lit, c: ClauseId) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (o, c) }
pub open spec fn once_l(s: Seq<(Lit, ClauseId)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn lkey(a: Lit, b: Lit) -> (Lit, Lit) { if b.ord() < a.ord() { (b, a) } else { (a, b) } }
pub proof fn lem_w_push(s: Seq<(ClauseId, Lit)>, e: (ClauseId, Lit))
    ensures forall|c: ClauseId| #[trigger] has_cid(s.push(e), c) == (has_cid(s, c) || c == e.0), once_w(s) && !has_cid(s, e.0) ==> once_w(s.push(e)) {
    let r = s.push(e);
    assert forall|c: ClauseId| #[trigger] has_cid(r, c) == (has_cid(s, c) || c == e.0) by {
        if has_cid(r, c) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == c; if i < s.len() { assert(s[i].0 == c); } }
        if has_cid(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c; assert(r[i].0 == c); }
        assert(r[s.len() as int].0 == e.0);
    }
}
pub open spec fn gone_at<T>(s: Seq<T>, i: int) -> Seq<T> { s.update(i, s.last()).drop_last() }
pub proof fn lem_w_del(s: Seq<(ClauseId, Lit)>, i: int) requires once_w(s), 0 <= i < s.len()
    ensures once_w(gone_at(s, i)), forall|c: ClauseId| #[trigger] has_cid(gone_at(s, i), c) == (has_cid(s, c) && c != s[i].0) {
    let r = gone_at(s, i);
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]) == (if j == i { s[s.len() - 1] } else { s[j] }) by { }
    assert forall|c: ClauseId| #[trigger] has_cid(r, c) == (has_cid(s, c) && c != s[i].0) by {
        if has_cid(r, c) { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).0 == c; let k = if j == i { s.len() - 1 } else { j }; assert(s[k].0 == c); if k < i { assert(s[k].0 != s[i].0); } else { assert(s[i].0 != s[k].0); } }
        if has_cid(s, c) && c != s[i].0 { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == c; let k = if j == s.len() - 1 { i } else { j }; assert(r[k].0 == c); }
    }
    assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
        let a = if j == i { s.len() - 1 } else { j }; let b = if k == i { s.len() - 1 } else { k };
        assert(r[j] == s[a] && r[k] == s[b]); if a < b { assert(s[a].0 != s[b].0); } else { assert(s[b].0 != s[a].0); }
    }
}
pub proof fn lem_l_push(s: Seq<(Lit, ClauseId)>, e: (Lit, ClauseId))
    ensures forall|o: Lit, c: ClauseId| #[trigger] has_lnk(s.push(e), o, c) == (has_lnk(s, o, c) || (o, c) == e), once_l(s) && (forall|c: ClauseId| !#[trigger] has_lnk(s, e.0, c)) ==> once_l(s.push(e)) {
    let r = s.push(e);
    assert forall|o: Lit, c: ClauseId| #[trigger] has_lnk(r, o, c) == (has_lnk(s, o, c) || (o, c) == e) by {
        if has_lnk(r, o, c) { let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == (o, c); if i < s.len() { assert(s[i] == (o, c)); } }
        if has_lnk(s, o, c) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (o, c); assert(r[i] == (o, c)); }
        assert(r[s.len() as int] == e);
    }
    if once_l(s) && (forall|c: ClauseId| !#[trigger] has_lnk(s, e.0, c)) {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { if j == s.len() { if s[i].0 == e.0 { assert(s[i] == (e.0, s[i].1)); assert(has_lnk(s, e.0, s[i].1)); } } }
    }
}
pub proof fn lem_l_del(s: Seq<(Lit, ClauseId)>, i: int) requires once_l(s), 0 <= i < s.len()
    ensures once_l(gone_at(s, i)), forall|o: Lit, c: ClauseId| #[trigger] has_lnk(gone_at(s, i), o, c) == (has_lnk(s, o, c) && o != s[i].0) {
    let r = gone_at(s, i);
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]) == (if j == i { s[s.len() - 1] } else { s[j] }) by { }
    assert forall|o: Lit, c: ClauseId| #[trigger] has_lnk(r, o, c) == (has_lnk(s, o, c) && o != s[i].0) by {
        if has_lnk(r, o, c) { let j = choose|j: int| 0 <= j < r.len() && #[trigger] r[j] == (o, c); let k = if j == i { s.len() - 1 } else { j }; assert(s[k] == (o, c)); if k < i { assert(s[k].0 != s[i].0); } else { assert(s[i].0 != s[k].0); } }
        if has_lnk(s, o, c) && o != s[i].0 { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (o, c); let k = if j == s.len() - 1 { i } else { j }; assert(r[k] == (o, c)); }
    }
    assert forall|j: int, k: int| 0 <= j < k < r.len() implies (#[trigger] r[j]).0 != (#[trigger] r[k]).0 by {
        let a = if j == i { s.len() - 1 } else { j }; let b = if k == i { s.len() - 1 } else { k };
        assert(r[j] == s[a] && r[k] == s[b]); if a < b { assert(s[a].0 != s[b].0); } else { assert(s[b].0 != s[a].0); }
    }
}
pub proof fn lem_l_del_key(s: Seq<(Lit, ClauseId)>, r: Seq<(Lit, ClauseId)>, x: Lit)
    requires once_l(s), (r == s && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 != x) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x && r == gone_at(s, i)
    ensures once_l(r), forall|o: Lit, c: ClauseId| #[trigger] has_lnk(r, o, c) == (has_lnk(s, o, c) && o != x) {
    if r == s && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 != x { }
    else { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x && r == gone_at(s, i); lem_l_del(s, i); }
}
pub proof fn lem_w_del_key(s: Seq<(ClauseId, Lit)>, r: Seq<(ClauseId, Lit)>, x: ClauseId)
    requires once_w(s), (r == s && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 != x) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x && r == gone_at(s, i)
    ensures once_w(r), forall|c: ClauseId| #[trigger] has_cid(r, c) == (has_cid(s, c) && c != x) {
    if r == s && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 != x { }
    else { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x && r == gone_at(s, i); lem_w_del(s, i); }
}
pub proof fn lem_w_same(s: Seq<(ClauseId, Lit)>, r: Seq<(ClauseId, Lit)>) requires r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).0 == s[i].0
    ensures once_w(s) ==> once_w(r), forall|c: ClauseId| #[trigger] has_cid(r, c) == has_cid(s, c) {
    assert forall|c: ClauseId| #[trigger] has_cid(r, c) == has_cid(s, c) by {
        if has_cid(r, c) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == c; assert(s[i].0 == c); }
        if has_cid(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c; assert(r[i].0 == c); }
    }
}
// ---- the clauses
pub open spec fn legal(s: Seq<Lit>, nl: int) -> bool { clause_ok(s) && 2 <= s.len() < 0x8000_0000 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ord() < nl }
pub open spec fn stored_ok(cs: Seq<Clause>, nl: int) -> bool {
    &&& 1 <= cs.len() <= 0x7fff_ffff && cs[0].dead() && nl < 0x8000_0000 && nl % 2 == 0
    &&& forall|i: int| 0 <= i < cs.len() && !(#[trigger] cs[i]).dead() ==> legal(cs[i].lits@, nl)
}
pub open spec fn live(cs: Seq<Clause>, c: ClauseId) -> bool { 1 <= c.ord() < cs.len() && !cs[c.ord() as int].dead() }
/// clause c must be in the watch list w
pub open spec fn watched(cs: Seq<Clause>, w: int, c: ClauseId) -> bool {
    &&& 1 <= c.ord() < cs.len() && cs[c.ord() as int].lits@.len() >= 3
    &&& w == cs[c.ord() as int].lits@[0].neg().ord() || w == cs[c.ord() as int].lits@[1].neg().ord()
}
pub open spec fn watch_ok(cs: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>) -> bool {
    &&& forall|w: int| 0 <= w < ws.len() ==> once_w(#[trigger] ws[w]@)
    &&& forall|w: int, c: ClauseId| 0 <= w < ws.len() ==> #[trigger] has_cid(ws[w]@, c) == watched(cs, w, c)
}
pub open spec fn is_bi(cs: Seq<Clause>, c: ClauseId) -> bool { 1 <= c.ord() < cs.len() && cs[c.ord() as int].lits@.len() == 2 }
pub open spec fn bikey(cs: Seq<Clause>, c: ClauseId) -> (Lit, Lit) { lkey(cs[c.ord() as int].lits@[0], cs[c.ord() as int].lits@[1]) }
/// clause c must be in the link list w, with the other literal o
pub open spec fn linked(cs: Seq<Clause>, w: int, o: Lit, c: ClauseId) -> bool {
    is_bi(cs, c) && { let l = cs[c.ord() as int].lits@; w == l[0].ord() && o == l[1] || w == l[1].ord() && o == l[0] }
}
pub open spec fn hash_ok(cs: Seq<Clause>, m: Map<(Lit, Lit), ClauseId>) -> bool {
    &&& forall|k: (Lit, Lit)| #[trigger] m.contains_key(k) ==> is_bi(cs, m[k]) && bikey(cs, m[k]) == k
    &&& forall|c: ClauseId| #[trigger] is_bi(cs, c) ==> m.contains_key(bikey(cs, c)) && m[bikey(cs, c)] == c
}
pub open spec fn lists_ok(cs: Seq<Clause>, ls: Seq<Vec<(Lit, ClauseId)>>) -> bool {
    &&& forall|w: int| 0 <= w < ls.len() ==> once_l(#[trigger] ls[w]@)
    &&& forall|w: int, o: Lit, c: ClauseId| 0 <= w < ls.len() ==> #[trigger] has_lnk(ls[w]@, o, c) == linked(cs, w, o, c)
}
pub open spec fn links_ok(cs: Seq<Clause>, bl: BinaryLinkDB) -> bool { hash_ok(cs, bl.hash.map()) && lists_ok(cs, bl.list@) }
pub open spec fn free_ok(cs: Seq<Clause>, fl: Seq<ClauseId>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < fl.len() ==> #[trigger] fl[i] != #[trigger] fl[j]
    &&& forall|c: ClauseId| #[trigger] fl.contains(c) <==> 1 <= c.ord() < cs.len() && cs[c.ord() as int].dead()
}
// ---- counts: 0 live clauses, 1 two-literal clauses, 2 learnt clauses
pub open spec fn kind(c: Clause, k: int) -> bool { !c.dead() && (k == 0 || k == 1 && c.lits@.len() == 2 || k == 2 && c.flags.learnt) }
pub open spec fn cnt(cs: Seq<Clause>, k: int) -> int decreases cs.len() { if cs.len() == 0 { 0 } else { cnt(cs.drop_last(), k) + (if kind(cs.last(), k) { 1int } else { 0 }) } }
pub proof fn lem_cnt_range(cs: Seq<Clause>, k: int) ensures 0 <= cnt(cs, k) <= cs.len() decreases cs.len() { if cs.len() > 0 { lem_cnt_range(cs.drop_last(), k); } }
pub proof fn lem_cnt_one(cs: Seq<Clause>, cs2: Seq<Clause>, i: int, k: int)
    requires cs2.len() == cs.len(), 0 <= i < cs.len(), forall|j: int| 0 <= j < cs.len() && j != i ==> #[trigger] cs2[j] == cs[j]
    ensures cnt(cs2, k) == cnt(cs, k) - (if kind(cs[i], k) { 1int } else { 0 }) + (if kind(cs2[i], k) { 1int } else { 0 }) decreases cs.len() {
    if i == cs.len() - 1 { assert(cs2.drop_last() =~= cs.drop_last()); } else { lem_cnt_one(cs.drop_last(), cs2.drop_last(), i, k); assert(cs2.last() == cs.last()); }
}
pub proof fn lem_cnt_push(cs: Seq<Clause>, c: Clause, k: int) ensures cnt(cs.push(c), k) == cnt(cs, k) + (if kind(c, k) { 1int } else { 0 }) { assert(cs.push(c).drop_last() =~= cs); }
pub proof fn lem_cnt_has(cs: Seq<Clause>, i: int, k: int) requires 0 <= i < cs.len(), kind(cs[i], k) ensures cnt(cs, k) >= 1 decreases cs.len() {
    lem_cnt_range(cs.drop_last(), k); if i < cs.len() - 1 { lem_cnt_has(cs.drop_last(), i, k); } }
pub proof fn lem_counts(cs: Seq<Clause>, cs2: Seq<Clause>, i: int)
    requires cs2.len() == cs.len(), 0 <= i < cs.len(), forall|j: int| 0 <= j < cs.len() && j != i ==> #[trigger] cs2[j] == cs[j]
    ensures forall|k: int| 0 <= k <= 2 ==> #[trigger] cnt(cs2, k) == cnt(cs, k) - (if kind(cs[i], k) { 1int } else { 0 }) + (if kind(cs2[i], k) { 1int } else { 0 }) {
    lem_cnt_one(cs, cs2, i, 0); lem_cnt_one(cs, cs2, i, 1); lem_cnt_one(cs, cs2, i, 2); }
// ---- the database
impl ClauseDB {
    pub open spec fn nl(&self) -> int { self.watch_cache@.len() as int }
    pub open spec fn lits(&self, c: ClauseId) -> Seq<Lit> { self.clause@[c.ord() as int].lits@ }
    pub open spec fn live(&self, c: ClauseId) -> bool { live(self.clause@, c) }
    /// C12: the indices agree with the clauses
    pub open spec fn index_ok(&self) -> bool {
        &&& stored_ok(self.clause@, self.nl()) && self.binary_link.list@.len() == self.nl()
        &&& watch_ok(self.clause@, self.watch_cache@)
        &&& links_ok(self.clause@, self.binary_link)
        &&& free_ok(self.clause@, self.freelist@)
    }
    pub open spec fn counts_ok(&self) -> bool { self.num_clause == cnt(self.clause@, 0) && self.num_bi_clause == cnt(self.clause@, 1) && self.num_learnt == cnt(self.clause@, 2) }
    pub open spec fn wf(&self) -> bool { self.index_ok() && self.counts_ok() && self.certification_store.wf() }
    pub open spec fn same_counts(&self, o: &ClauseDB) -> bool { self.num_clause == o.num_clause && self.num_bi_clause == o.num_bi_clause && self.num_learnt == o.num_learnt }
    /// clause c with the literals s has been added in a free or new slot
    pub open spec fn added(&self, o: &ClauseDB, c: ClauseId, s: Seq<Lit>) -> bool {
        &&& self.kept_but(o, c.ord() as int) && self.clause@.len() <= o.clause@.len() + 1 && !o.live(c) && self.live(c) && self.lits(c) == s
        &&& self.clause@.len() == o.clause@.len() + (if c.ord() < o.clause@.len() { 0int } else { 1 })
        &&& self.soft_limit == o.soft_limit
    }
    /// the watch lists hold what they held, and pairs of c and one of its literals s
    pub open spec fn joined(&self, o: &ClauseDB, c: ClauseId, s: Seq<Lit>) -> bool {
        &&& self.clause@[c.ord() as int].search_from == 2 && self.nl() == o.nl()
        &&& forall|w: int, j: int| #![trigger self.watch_cache@[w]@[j]] 0 <= w < self.nl() && 0 <= j < self.watch_cache@[w]@.len() ==> o.watch_cache@[w]@.contains(self.watch_cache@[w]@[j]) || self.watch_cache@[w]@[j].0 == c && s.contains(self.watch_cache@[w]@[j].1)
    }
    /// clause c has been removed
    pub open spec fn removed(&self, o: &ClauseDB, c: ClauseId) -> bool {
        &&& self.kept_but(o, c.ord() as int) && self.clause@.len() == o.clause@.len() && self.clause@[c.ord() as int].dead() && self.soft_limit == o.soft_limit && self.lbd_temp == o.lbd_temp && self.clause@[c.ord() as int].search_from == o.clause@[c.ord() as int].search_from
    }
    /// all clauses but number i are as in o
    pub open spec fn kept_but(&self, o: &ClauseDB, i: int) -> bool {
        &&& self.nl() == o.nl() && self.lbd_temp@.len() == o.lbd_temp@.len() && self.clause@.len() >= o.clause@.len()
        &&& forall|j: int| 0 <= j < o.clause@.len() && j != i ==> #[trigger] self.clause@[j] == o.clause@[j]
    }
}
"""
TEXT2 = r"""
pub open spec fn lists_once(ls: Seq<Vec<(Lit, ClauseId)>>) -> bool { forall|w: int| 0 <= w < ls.len() ==> once_l(#[trigger] ls[w]@) }
pub open spec fn watch_once(ws: Seq<Vec<(ClauseId, Lit)>>) -> bool { forall|w: int| 0 <= w < ws.len() ==> once_w(#[trigger] ws[w]@) }
/// the link of the two-literal clause s is gone, every other one is kept
pub open spec fn bi_removed(a: BinaryLinkDB, b: BinaryLinkDB, s: Seq<Lit>) -> bool {
    &&& b.hash.map() == a.hash.map().remove(lkey(s[0], s[1])) && b.list@.len() == a.list@.len() && lists_once(b.list@)
    &&& forall|w: int, o: Lit, c: ClauseId| 0 <= w < a.list@.len() ==> #[trigger] has_lnk(b.list@[w]@, o, c) == (has_lnk(a.list@[w]@, o, c) && !(w == s[0].ord() && o == s[1] || w == s[1].ord() && o == s[0]))
}
/// c is gone from the lists x and y, nothing else has changed
pub open spec fn unwatched(a: Seq<Vec<(ClauseId, Lit)>>, b: Seq<Vec<(ClauseId, Lit)>>, c: ClauseId, x: int, y: int) -> bool {
    &&& b.len() == a.len() && watch_once(b)
    &&& forall|w: int, d: ClauseId| 0 <= w < a.len() ==> #[trigger] has_cid(b[w]@, d) == (has_cid(a[w]@, d) && !(d == c && (w == x || w == y)))
}
/// the entries of the watch lists b are those of a, or pairs of c and one of the literals s
pub open spec fn entries_from(a: Seq<Vec<(ClauseId, Lit)>>, b: Seq<Vec<(ClauseId, Lit)>>, c: ClauseId, s: Seq<Lit>) -> bool {
    forall|w: int, j: int| #![trigger b[w]@[j]] 0 <= w < b.len() && 0 <= j < b[w]@.len() ==> a[w]@.contains(b[w]@[j]) || b[w]@[j].0 == c && s.contains(b[w]@[j].1)
}
pub proof fn lem_free_push(cs: Seq<Clause>, cs2: Seq<Clause>, fl: Seq<ClauseId>, c: ClauseId)
    requires free_ok(cs, fl), live(cs, c), cs2.len() == cs.len(), cs2[c.ord() as int].dead(), forall|j: int| 0 <= j < cs.len() && j != c.ord() ==> #[trigger] cs2[j] == cs[j]
    ensures free_ok(cs2, fl.push(c)) {
    let r = fl.push(c);
    assert(!fl.contains(c));
    assert forall|d: ClauseId| #[trigger] r.contains(d) <==> 1 <= d.ord() < cs2.len() && cs2[d.ord() as int].dead() by {
        if r.contains(d) { let i = choose|i: int| 0 <= i < r.len() && r[i] == d; if i < fl.len() { assert(fl[i] == d); assert(fl.contains(d)); } }
        if fl.contains(d) { let i = choose|i: int| 0 <= i < fl.len() && fl[i] == d; assert(r[i] == d); }
        assert(r[fl.len() as int] == c);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { if j == fl.len() { assert(fl.contains(fl[i])); } }
}
/// removing clause c from the lists it is in keeps the indices right
pub proof fn lem_index_removed(cs: Seq<Clause>, cs2: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, ws2: Seq<Vec<(ClauseId, Lit)>>, a: BinaryLinkDB, b: BinaryLinkDB, c: ClauseId)
    requires stored_ok(cs, ws.len() as int), watch_ok(cs, ws), links_ok(cs, a), a.list@.len() == ws.len(), live(cs, c), cs2.len() == cs.len(), cs2[c.ord() as int].dead(), forall|j: int| 0 <= j < cs.len() && j != c.ord() ==> #[trigger] cs2[j] == cs[j],
        cs[c.ord() as int].lits@.len() == 2 ==> ws2 == ws && bi_removed(a, b, cs[c.ord() as int].lits@),
        cs[c.ord() as int].lits@.len() > 2 ==> b == a && unwatched(ws, ws2, c, cs[c.ord() as int].lits@[0].neg().ord() as int, cs[c.ord() as int].lits@[1].neg().ord() as int)
    ensures watch_ok(cs2, ws2), links_ok(cs2, b), stored_ok(cs2, ws2.len() as int) {
    let s = cs[c.ord() as int].lits@;
    assert(legal(s, ws.len() as int));
    assert forall|w: int, d: ClauseId| 0 <= w < ws2.len() implies #[trigger] has_cid(ws2[w]@, d) == watched(cs2, w, d) by { assert(has_cid(ws[w]@, d) == watched(cs, w, d)); }
    assert(hash_ok(cs2, b.hash.map())) by {
        assert(is_bi(cs, c) ==> a.hash.map().contains_key(bikey(cs, c)) && a.hash.map()[bikey(cs, c)] == c);
        assert forall|k: (Lit, Lit)| #[trigger] b.hash.map().contains_key(k) implies is_bi(cs2, b.hash.map()[k]) && bikey(cs2, b.hash.map()[k]) == k by { assert(a.hash.map().contains_key(k)); }
        assert forall|d: ClauseId| #[trigger] is_bi(cs2, d) implies b.hash.map().contains_key(bikey(cs2, d)) && b.hash.map()[bikey(cs2, d)] == d by { assert(is_bi(cs, d)); }
    }
    assert forall|w: int, o: Lit, d: ClauseId| 0 <= w < b.list@.len() implies #[trigger] has_lnk(b.list@[w]@, o, d) == linked(cs2, w, o, d) by {
        assert(has_lnk(a.list@[w]@, o, d) == linked(cs, w, o, d));
        if d != c && linked(cs, w, o, d) && s.len() == 2 && (w == s[0].ord() && o == s[1] || w == s[1].ord() && o == s[0]) {
            lem_same_ord(w, cs[d.ord() as int].lits@, s, o); assert(is_bi(cs, c) && is_bi(cs, d)); assert(false); }
    }
}
pub open spec fn watch_but(cs: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, c: ClauseId) -> bool { forall|w: int, d: ClauseId| 0 <= w < ws.len() && d != c ==> #[trigger] has_cid(ws[w]@, d) == watched(cs, w, d) }
/// putting clause c into the lists it belongs to keeps the indices right
pub proof fn lem_index_added(cs: Seq<Clause>, cs2: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, ws2: Seq<Vec<(ClauseId, Lit)>>, a: BinaryLinkDB, b: BinaryLinkDB, c: ClauseId)
    requires stored_ok(cs, ws.len() as int), watch_but(cs, ws, c), links_ok(cs, a), a.list@.len() == ws.len(), !is_bi(cs, c), 1 <= c.ord() < cs2.len(), cs.len() <= cs2.len() <= 0x7fff_ffff, cs2.len() > cs.len() ==> c.ord() == cs.len() && cs2.len() == cs.len() + 1,
        legal(cs2[c.ord() as int].lits@, ws.len() as int), forall|j: int| 0 <= j < cs.len() && j != c.ord() ==> #[trigger] cs2[j] == cs[j],
        cs2[c.ord() as int].lits@.len() == 2 ==> (ws2 == ws && watch_ok(cs, ws) && !live(cs, c) || rewatched(ws, ws2, c, -1, -1)) && bi_added(a, b, cs2[c.ord() as int].lits@[0], cs2[c.ord() as int].lits@[1], c) && lists_once(b.list@) && !a.hash.map().contains_key(bikey(cs2, c)),
        cs2[c.ord() as int].lits@.len() > 2 ==> b == a && rewatched(ws, ws2, c, cs2[c.ord() as int].lits@[0].neg().ord() as int, cs2[c.ord() as int].lits@[1].neg().ord() as int)
    ensures watch_ok(cs2, ws2), links_ok(cs2, b), stored_ok(cs2, ws2.len() as int), b.list@.len() == ws2.len() {
    let s = cs2[c.ord() as int].lits@;
    assert forall|w: int, d: ClauseId| 0 <= w < ws2.len() implies #[trigger] has_cid(ws2[w]@, d) == watched(cs2, w, d) by { if d != c { assert(has_cid(ws[w]@, d) == watched(cs, w, d)); } }
    assert(hash_ok(cs2, b.hash.map())) by {
        assert forall|k: (Lit, Lit)| #[trigger] b.hash.map().contains_key(k) implies is_bi(cs2, b.hash.map()[k]) && bikey(cs2, b.hash.map()[k]) == k by { if a.hash.map().contains_key(k) && !(s.len() == 2 && k == bikey(cs2, c)) { assert(is_bi(cs, a.hash.map()[k])); } }
        assert forall|d: ClauseId| #[trigger] is_bi(cs2, d) implies b.hash.map().contains_key(bikey(cs2, d)) && b.hash.map()[bikey(cs2, d)] == d by { if d != c { assert(is_bi(cs, d)); } }
    }
    assert forall|w: int, o: Lit, d: ClauseId| 0 <= w < b.list@.len() implies #[trigger] has_lnk(b.list@[w]@, o, d) == linked(cs2, w, o, d) by {
        assert(has_lnk(a.list@[w]@, o, d) == linked(cs, w, o, d)); }
}
/// c has been put into the lists x and y, nothing else has changed
pub open spec fn rewatched(a: Seq<Vec<(ClauseId, Lit)>>, b: Seq<Vec<(ClauseId, Lit)>>, c: ClauseId, x: int, y: int) -> bool {
    &&& b.len() == a.len() && watch_once(b)
    &&& forall|w: int, d: ClauseId| 0 <= w < a.len() ==> #[trigger] has_cid(b[w]@, d) == (if d == c { w == x || w == y } else { has_cid(a[w]@, d) })
}
/// the two-literal clause c with literals s has been linked
pub open spec fn bi_added(a: BinaryLinkDB, b: BinaryLinkDB, x: Lit, y: Lit, c: ClauseId) -> bool {
    &&& b.hash.map() == a.hash.map().insert(lkey(x, y), c) && b.list@.len() == a.list@.len()
    &&& forall|w: int, o: Lit, d: ClauseId| 0 <= w < a.list@.len() ==> #[trigger] has_lnk(b.list@[w]@, o, d) == (has_lnk(a.list@[w]@, o, d) || d == c && (w == x.ord() && o == y || w == y.ord() && o == x))
}
pub proof fn lem_not_linked(cs: Seq<Clause>, a: BinaryLinkDB, x: Lit, y: Lit)
    requires links_ok(cs, a), !a.hash.map().contains_key(lkey(x, y)), x.ord() < a.list@.len(), y.ord() < a.list@.len()
    ensures unlinked(a, x, y), lists_once(a.list@) {
    assert forall|c: ClauseId| !#[trigger] has_lnk(a.list@[x.ord() as int]@, y, c) by { if linked(cs, x.ord() as int, y, c) { assert(is_bi(cs, c)); let s = cs[c.ord() as int].lits@; lem_ord_eq(s[0], x); lem_ord_eq(s[1], x); } }
    assert forall|c: ClauseId| !#[trigger] has_lnk(a.list@[y.ord() as int]@, x, c) by { if linked(cs, y.ord() as int, x, c) { assert(is_bi(cs, c)); let s = cs[c.ord() as int].lits@; lem_ord_eq(s[0], y); lem_ord_eq(s[1], y); } }
}
pub proof fn lem_ord_eq(a: Lit, b: Lit) ensures (a.ord() == b.ord()) == (a == b) { }
pub open spec fn unlinked(a: BinaryLinkDB, x: Lit, y: Lit) -> bool { (forall|c: ClauseId| !#[trigger] has_lnk(a.list@[x.ord() as int]@, y, c)) && forall|c: ClauseId| !#[trigger] has_lnk(a.list@[y.ord() as int]@, x, c) }
pub proof fn lem_free_added(cs: Seq<Clause>, cs2: Seq<Clause>, fl: Seq<ClauseId>, fl2: Seq<ClauseId>, c: ClauseId)
    requires free_ok(cs, fl), forall|j: int| 0 <= j < cs.len() && j != c.ord() ==> #[trigger] cs2[j] == cs[j], 1 <= c.ord() < cs2.len(), !cs2[c.ord() as int].dead(),
        fl.len() > 0 && c == fl.last() && fl2 =~= fl.drop_last() && cs2.len() == cs.len() || fl2 == fl && cs2.len() == cs.len() + 1 && c.ord() == cs.len()
    ensures free_ok(cs2, fl2) {
    assert forall|d: ClauseId| #[trigger] fl2.contains(d) <==> 1 <= d.ord() < cs2.len() && cs2[d.ord() as int].dead() by {
        if fl2.contains(d) { let i = choose|i: int| 0 <= i < fl2.len() && fl2[i] == d; assert(fl[i] == d); assert(fl.contains(d)); if fl2.len() < fl.len() { assert(fl[i] != fl[fl.len() - 1]); } }
        if fl.contains(d) && d != c { let i = choose|i: int| 0 <= i < fl.len() && fl[i] == d; assert(fl2[i] == d); }
    }
}
pub proof fn lem_counts_added(cs: Seq<Clause>, cs2: Seq<Clause>, i: int)
    requires 0 <= i < cs2.len(), cs2.len() == cs.len() || cs2.len() == cs.len() + 1 && i == cs.len(), forall|j: int| 0 <= j < cs.len() && j != i ==> #[trigger] cs2[j] == cs[j], i < cs.len() ==> cs[i].dead()
    ensures forall|k: int| 0 <= k <= 2 ==> #[trigger] cnt(cs2, k) == cnt(cs, k) + (if kind(cs2[i], k) { 1int } else { 0 }) {
    if cs2.len() == cs.len() { lem_counts(cs, cs2, i); } else { assert(cs2 =~= cs.push(cs2[i])); lem_cnt_push(cs, cs2[i], 0); lem_cnt_push(cs, cs2[i], 1); lem_cnt_push(cs, cs2[i], 2); }
}
/// two pairs linked the same way have the same key
pub proof fn lem_same_ord(w: int, s: Seq<Lit>, t: Seq<Lit>, o: Lit)
    requires s.len() == 2, t.len() == 2, w == s[0].ord() && o == s[1] || w == s[1].ord() && o == s[0], w == t[0].ord() && o == t[1] || w == t[1].ord() && o == t[0]
    ensures lkey(s[0], s[1]) == lkey(t[0], t[1]) { }
pub open spec fn same_pair(s: Seq<Lit>, t: Seq<Lit>) -> bool { s.len() == 2 && t.len() == 2 && (s[0] == t[0] && s[1] == t[1] || s[0] == t[1] && s[1] == t[0]) }
pub open spec fn stamps(b: Seq<usize>) -> bool { b.len() >= 1 && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] <= b[0] }
/// the working buffer of the LBD computation: a stamp that only grows (fewer than 2^62 computations are made)
pub open spec fn lbd_room(b: Seq<usize>) -> bool { b.len() >= 1 && b[0] < 0x4000_0000_0000_0000 }
pub open spec fn lbd_used(a: Seq<usize>, b: Seq<usize>) -> bool { b.len() == a.len() && b[0] <= a[0] + 1 && (stamps(a) ==> stamps(b)) }
impl AssignStack {
    pub open spec fn reads(&self, s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> self.lit_ok(#[trigger] s[i]) }
    pub open spec fn levels_below(&self, n: int) -> bool { forall|v: int| 0 <= v < self.var@.len() ==> (#[trigger] self.var@[v]).level < n }
}
pub proof fn lem_neg_below(l: Lit, n: int) requires l.wf(), l.ord() < n, n % 2 == 0, n < 0x8000_0000 ensures l.neg().ord() < n { }
"""
TEXT3 = r"""
// ---- sequences without some of their literals, in order
pub proof fn lem_filter_push(s: Seq<Lit>, k: int, f: spec_fn(Lit) -> bool) requires 0 <= k < s.len()
    ensures s.take(k + 1).filter(f) == (if f(s[k]) { s.take(k).filter(f).push(s[k]) } else { s.take(k).filter(f) }) {
    reveal(Seq::filter); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
}
pub proof fn lem_filter_all(s: Seq<Lit>, f: spec_fn(Lit) -> bool) requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) ensures s.filter(f) =~= s decreases s.len() {
    reveal(Seq::filter); if s.len() > 0 { lem_filter_all(s.drop_last(), f); } }
pub proof fn lem_filter_less(s: Seq<Lit>, f: spec_fn(Lit) -> bool, i: int) requires 0 <= i < s.len(), !f(s[i]) ensures s.filter(f).len() < s.len() decreases s.len() {
    reveal(Seq::filter); lem_filter_ok(s.drop_last(), f); if i < s.len() - 1 { lem_filter_less(s.drop_last(), f, i); } }
pub proof fn lem_filter_first(s: Seq<Lit>, f: spec_fn(Lit) -> bool) requires s.len() > 0, f(s[0]) ensures s.filter(f).len() > 0, s.filter(f)[0] == s[0] decreases s.len() {
    reveal(Seq::filter); if s.len() > 1 { assert(s.drop_last()[0] == s[0]); lem_filter_first(s.drop_last(), f); assert(s.filter(f)[0] == s.drop_last().filter(f)[0]); } else { assert(s.drop_last().filter(f) =~= Seq::empty()); } }
/// s with the literal p left out
pub open spec fn not_lit(p: Lit) -> spec_fn(Lit) -> bool { |l: Lit| l != p }
pub open spec fn without(s: Seq<Lit>, p: Lit) -> Seq<Lit> { s.filter(not_lit(p)) }
/// the literals kept are literals of s, still legal, and none is lost that f keeps
pub proof fn lem_filter_ok(s: Seq<Lit>, f: spec_fn(Lit) -> bool)
    ensures s.filter(f).len() <= s.len(), clause_ok(s) ==> clause_ok(s.filter(f)), forall|l: Lit| #[trigger] s.filter(f).contains(l) <==> s.contains(l) && f(l),
        forall|i: int| 0 <= i < s.filter(f).len() ==> f(#[trigger] s.filter(f)[i]) && s.contains(s.filter(f)[i]), decreases s.len() {
    reveal(Seq::filter);
    let r = s.filter(f);
    if s.len() > 0 {
        let t = s.drop_last(); let z = s.last(); let q = t.filter(f);
        lem_filter_ok(t, f);
        assert(forall|l: Lit| #[trigger] s.contains(l) <==> t.contains(l) || l == z) by {
            assert forall|l: Lit| t.contains(l) || l == z implies #[trigger] s.contains(l) by { if t.contains(l) { let i = choose|i: int| 0 <= i < t.len() && t[i] == l; assert(s[i] == l); } else { assert(s[s.len() - 1] == l); } }
            assert forall|l: Lit| #[trigger] s.contains(l) implies t.contains(l) || l == z by { let i = choose|i: int| 0 <= i < s.len() && s[i] == l; if i < t.len() { assert(t[i] == l); } }
        }
        if f(z) {
            assert(r == q.push(z));
            assert forall|l: Lit| #[trigger] r.contains(l) <==> s.contains(l) && f(l) by {
                if r.contains(l) { let i = choose|i: int| 0 <= i < r.len() && r[i] == l; if i < q.len() { assert(q[i] == l); assert(q.contains(l)); } }
                if q.contains(l) { let i = choose|i: int| 0 <= i < q.len() && q[i] == l; assert(r[i] == l); }
                assert(r[q.len() as int] == z);
            }
            assert forall|i: int| 0 <= i < r.len() implies f(#[trigger] r[i]) && s.contains(r[i]) by { if i < q.len() { assert(r[i] == q[i]); assert(t.contains(q[i])); } }
            if clause_ok(s) {
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { assert(t[i] == s[i]); }
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).var() != (#[trigger] t[j]).var() by { assert(t[i] == s[i] && t[j] == s[j]); }
                assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).wf() by { assert(s.contains(r[i])); }
                assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).var() != (#[trigger] r[j]).var() by {
                    assert(r[i] == q[i]);
                    if j < q.len() { assert(r[j] == q[j]); } else { assert(t.contains(q[i])); let k = choose|k: int| 0 <= k < t.len() && t[k] == q[i]; assert(s[k].var() != s[s.len() - 1].var()); }
                }
            }
        } else {
            assert(r == q);
            if clause_ok(s) {
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { assert(t[i] == s[i]); }
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).var() != (#[trigger] t[j]).var() by { assert(t[i] == s[i] && t[j] == s[j]); }
            }
        }
    } else { assert(r =~= s); }
}
/// leaving out the literal at k leaves the others where they are
pub proof fn lem_without(s: Seq<Lit>, k: int) requires clause_ok(s), 0 <= k < s.len() ensures without(s, s[k]) =~= s.take(k) + s.skip(k + 1) decreases s.len() {
    reveal(Seq::filter);
    let p = s[k]; let t = s.drop_last();
    if k == s.len() - 1 {
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != p by { assert(t[i] == s[i]); assert(s[i].var() != s[k].var()); }
        lem_filter_all(t, not_lit(p)); assert(t =~= s.take(k)); assert(s.filter(not_lit(p)) == t.filter(not_lit(p)));
    } else {
        assert(clause_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { assert(t[i] == s[i]); }
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).var() != (#[trigger] t[j]).var() by { assert(t[i] == s[i] && t[j] == s[j]); } }
        lem_without(t, k); assert(s.last() != p) by { assert(s[k].var() != s[s.len() - 1].var()); }
        assert(without(t, p) =~= t.take(k) + t.skip(k + 1));
        assert(s.filter(not_lit(p)) == t.filter(not_lit(p)).push(s.last())); assert(without(s, p) =~= s.take(k) + s.skip(k + 1));
    }
}
/// what remains of a legal clause is legal as long as two literals remain
pub proof fn lem_legal_filter(s: Seq<Lit>, f: spec_fn(Lit) -> bool, nl: int) requires legal(s, nl), s.filter(f).len() >= 2 ensures legal(s.filter(f), nl) {
    lem_filter_ok(s, f); let r = s.filter(f);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ord() < nl by { assert(s.contains(r[i])); }
}
/// clauses changed in nothing but the order of the first two literals of c
pub open spec fn turned(cs: Seq<Clause>, cs2: Seq<Clause>, c: ClauseId) -> bool {
    &&& cs2.len() == cs.len() && 0 <= c.ord() < cs.len() && forall|j: int| 0 <= j < cs.len() && j != c.ord() ==> #[trigger] cs2[j] == cs[j]
    &&& cs2[c.ord() as int].flags == cs[c.ord() as int].flags && turned_lits(cs[c.ord() as int].lits@, cs2[c.ord() as int].lits@)
}
pub open spec fn turned_lits(s: Seq<Lit>, t: Seq<Lit>) -> bool { t == s || s.len() >= 2 && t == s.update(0, s[1]).update(1, s[0]) }
pub proof fn lem_turned(cs: Seq<Clause>, cs2: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, a: BinaryLinkDB, fl: Seq<ClauseId>, c: ClauseId)
    requires turned(cs, cs2, c), stored_ok(cs, ws.len() as int), watch_ok(cs, ws), links_ok(cs, a), free_ok(cs, fl)
    ensures stored_ok(cs2, ws.len() as int), watch_ok(cs2, ws), links_ok(cs2, a), free_ok(cs2, fl), forall|k: int| 0 <= k <= 2 ==> #[trigger] cnt(cs2, k) == cnt(cs, k) {
    let i = c.ord() as int; let s = cs[i].lits@; let t = cs2[i].lits@;
    lem_counts(cs, cs2, i);
    assert(t.len() == s.len());
    if !cs[i].dead() {
        assert(legal(s, ws.len() as int));
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).wf() && t[j].ord() < ws.len() by { let k = if t == s { j } else if j == 0 { 1 } else if j == 1 { 0 } else { j }; assert(t[j] == s[k]); }
        assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).var() != (#[trigger] t[k]).var() by {
            let a = if t == s { j } else if j == 0 { 1 } else if j == 1 { 0 } else { j }; let b = if t == s { k } else if k == 0 { 1 } else if k == 1 { 0 } else { k };
            assert(t[j] == s[a] && t[k] == s[b]); if a < b { assert(s[a].var() != s[b].var()); } else { assert(s[b].var() != s[a].var()); } }
        assert(legal(t, ws.len() as int));
        if s.len() == 2 { lem_ord_eq(s[0], s[1]); assert(s[0].var() != s[1].var()); assert(lkey(t[0], t[1]) == lkey(s[0], s[1])); }
    }
    assert forall|w: int, d: ClauseId| 0 <= w < ws.len() implies #[trigger] has_cid(ws[w]@, d) == watched(cs2, w, d) by { assert(has_cid(ws[w]@, d) == watched(cs, w, d)); }
    assert forall|d: ClauseId| is_bi(cs, d) == #[trigger] is_bi(cs2, d) && (is_bi(cs, d) ==> bikey(cs, d) == bikey(cs2, d)) by { }
    assert(hash_ok(cs2, a.hash.map())) by {
        assert forall|k: (Lit, Lit)| #[trigger] a.hash.map().contains_key(k) implies is_bi(cs2, a.hash.map()[k]) && bikey(cs2, a.hash.map()[k]) == k by { assert(is_bi(cs, a.hash.map()[k])); assert(is_bi(cs2, a.hash.map()[k])); }
        assert forall|d: ClauseId| #[trigger] is_bi(cs2, d) implies a.hash.map().contains_key(bikey(cs2, d)) && a.hash.map()[bikey(cs2, d)] == d by { assert(is_bi(cs, d)); }
    }
    assert forall|w: int, o: Lit, d: ClauseId| 0 <= w < a.list@.len() implies #[trigger] has_lnk(a.list@[w]@, o, d) == linked(cs2, w, o, d) by { assert(has_lnk(a.list@[w]@, o, d) == linked(cs, w, o, d)); }
    assert forall|d: ClauseId| #[trigger] fl.contains(d) <==> 1 <= d.ord() < cs2.len() && cs2[d.ord() as int].dead() by { }
}
/// another flag or rank on clause c
pub proof fn lem_reflagged(cs: Seq<Clause>, cs2: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, a: BinaryLinkDB, fl: Seq<ClauseId>, c: ClauseId)
    requires cs2.len() == cs.len(), 0 <= c.ord() < cs.len(), forall|j: int| 0 <= j < cs.len() && j != c.ord() ==> #[trigger] cs2[j] == cs[j], cs2[c.ord() as int].lits@ == cs[c.ord() as int].lits@, stored_ok(cs, ws.len() as int), watch_ok(cs, ws), links_ok(cs, a), free_ok(cs, fl)
    ensures stored_ok(cs2, ws.len() as int), watch_ok(cs2, ws), links_ok(cs2, a), free_ok(cs2, fl) {
    let c1 = cs2[c.ord() as int]; let c3 = Clause { flags: cs[c.ord() as int].flags, ..c1 }; let cm = cs2.update(c.ord() as int, c3);
    assert(turned(cs, cm, c)); lem_turned(cs, cm, ws, a, fl, c);
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs2[j]).lits@ == cm[j].lits@ by { }
    assert forall|w: int, d: ClauseId| 0 <= w < ws.len() implies #[trigger] has_cid(ws[w]@, d) == watched(cs2, w, d) by { assert(has_cid(ws[w]@, d) == watched(cm, w, d)); }
    assert(hash_ok(cs2, a.hash.map())) by {
        assert forall|k: (Lit, Lit)| #[trigger] a.hash.map().contains_key(k) implies is_bi(cs2, a.hash.map()[k]) && bikey(cs2, a.hash.map()[k]) == k by { assert(is_bi(cm, a.hash.map()[k])); }
        assert forall|d: ClauseId| #[trigger] is_bi(cs2, d) implies a.hash.map().contains_key(bikey(cs2, d)) && a.hash.map()[bikey(cs2, d)] == d by { assert(is_bi(cm, d)); }
    }
    assert forall|w: int, o: Lit, d: ClauseId| 0 <= w < a.list@.len() implies #[trigger] has_lnk(a.list@[w]@, o, d) == linked(cs2, w, o, d) by { assert(has_lnk(a.list@[w]@, o, d) == linked(cm, w, o, d)); }
    assert forall|d: ClauseId| #[trigger] fl.contains(d) <==> 1 <= d.ord() < cs2.len() && cs2[d.ord() as int].dead() by { }
}
pub proof fn lem_free_same(cs: Seq<Clause>, cs2: Seq<Clause>, fl: Seq<ClauseId>) requires free_ok(cs, fl), cs2.len() == cs.len(), forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs2[j]).dead() == cs[j].dead() ensures free_ok(cs2, fl) { }
/// neither assigned nor eliminated
pub open spec fn is_open(a: AssignStack) -> spec_fn(Lit) -> bool { |l: Lit| a.lit_value(l).is_none() && !a.var@[l.var() as int].flags.eliminated }
pub open spec fn some_true(a: AssignStack, s: Seq<Lit>) -> bool { exists|i: int| 0 <= i < s.len() && a.lit_value(#[trigger] s[i]) == Some(true) }
impl CertificationStore {
    /// a clause has been replaced by another one: both steps are logged, the addition first
    pub open spec fn replaced(&self, o: CertificationStore, new: Seq<Lit>, gone: Seq<Lit>) -> bool {
        &&& self.wf()
        &&& self.active() ==> o.active() && self.out() == o.out() + line_text(false, nums(new)) + line_text(true, nums(gone))
        &&& o.healthy() ==> self.healthy()
        &&& !o.active() ==> !self.active()
    }
}
impl ClauseDB {
    /// clause c now has the literals s
    pub open spec fn rewritten(&self, o: &ClauseDB, c: ClauseId, s: Seq<Lit>) -> bool {
        &&& self.kept_but(o, c.ord() as int) && self.clause@.len() == o.clause@.len() && self.lits(c) == s && self.soft_limit == o.soft_limit && self.lbd_temp == o.lbd_temp
    }
    /// nothing has changed
    pub open spec fn intact(&self, o: &ClauseDB) -> bool { *self == (ClauseDB { clause: self.clause, ..*o }) && self.clause@ == o.clause@ }
    /// nothing has changed but possibly the order of the first two literals of c
    pub open spec fn only_turned(&self, o: &ClauseDB, c: ClauseId) -> bool {
        &&& turned(o.clause@, self.clause@, c) && self.watch_cache == o.watch_cache && self.binary_link == o.binary_link && self.freelist == o.freelist
        &&& self.certification_store == o.certification_store && self.same_counts(o) && self.soft_limit == o.soft_limit && self.lbd_temp == o.lbd_temp
    }
}
"""
TEXT4 = r"""
// ---- C06: dropping literals of a learnt clause with the help of two-literal clauses
/// m satisfies every two-literal clause
pub open spec fn sat_bi(m: Val, cs: Seq<Clause>) -> bool { forall|c: ClauseId| #[trigger] is_bi(cs, c) ==> satisfies(m, cs[c.ord() as int].lits@) }
/// variable v is the other variable of a two-literal clause (l0, not l) where l is the literal of v that is false
pub open spec fn droppable(a: AssignStack, cs: Seq<Clause>, l0: Lit, v: int) -> bool {
    exists|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; let o = if t[0] == l0 { t[1] } else { t[0] }; (t[0] == l0 || t[1] == l0) && o.var() == v && a.lit_value(o) == Some(true) }
}
pub proof fn lem_dropped(a: AssignStack, cs: Seq<Clause>, s: Seq<Lit>, r: Seq<Lit>, m: Val, nl: int)
    requires stored_ok(cs, nl), clause_ok(s), s.len() > 0, sat_bi(m, cs), satisfies(m, s), r.contains(s[0]), forall|i: int| 1 <= i < s.len() ==> a.lit_value(#[trigger] s[i]) == Some(false),
        forall|i: int| 1 <= i < s.len() && !r.contains(#[trigger] s[i]) ==> droppable(a, cs, s[0], s[i].var() as int)
    ensures satisfies(m, r) {
    let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]); let l0 = s[0];
    let k0 = choose|k: int| 0 <= k < r.len() && r[k] == l0;
    if r.contains(s[i]) { let k = choose|k: int| 0 <= k < r.len() && r[k] == s[i]; assert(vtrue(m, r[k])); }
    else {
        assert(i >= 1);
        let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; let o = if t[0] == l0 { t[1] } else { t[0] }; (t[0] == l0 || t[1] == l0) && o.var() == s[i].var() && a.lit_value(o) == Some(true) };
        let t = cs[c.ord() as int].lits@; let o = if t[0] == l0 { t[1] } else { t[0] };
        assert(legal(t, nl)); assert(o.wf()); assert(a.lit_value(s[i]) == Some(false)); lem_same_var(o, s[i]);
        let j = choose|j: int| 0 <= j < t.len() && vtrue(m, #[trigger] t[j]);
        assert(t[j] == l0 || t[j] == o); assert(vtrue(m, l0)); assert(vtrue(m, r[k0]));
    }
}
/// Vec::retain keeps the elements the closure accepts, in order
#[verifier::external_body]
pub fn verif_retain<F: Fn(&Lit) -> bool>(v: &mut Vec<Lit>, f: F, Ghost(g): Ghost<spec_fn(Lit) -> bool>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i],)), forall|i: int, b: bool| 0 <= i < old(v)@.len() && #[trigger] f.ensures((&old(v)@[i],), b) ==> b == g(old(v)@[i])
    ensures final(v)@ == old(v)@.filter(g) { unimplemented!() }
/// with two more, empty, lists at the end everything is still in its place
pub proof fn lem_grown(cs: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, ws2: Seq<Vec<(ClauseId, Lit)>>, a: BinaryLinkDB, b: BinaryLinkDB)
    requires stored_ok(cs, ws.len() as int), watch_ok(cs, ws), links_ok(cs, a), a.list@.len() == ws.len(), ws2.len() == ws.len() + 2 < 0x8000_0000, b.list@.len() == ws2.len(), b.hash == a.hash,
        forall|w: int| 0 <= w < ws.len() ==> #[trigger] ws2[w] == ws[w], forall|w: int| ws.len() <= w < ws2.len() ==> (#[trigger] ws2[w])@.len() == 0, forall|w: int| 0 <= w < ws.len() ==> #[trigger] b.list@[w] == a.list@[w], forall|w: int| ws.len() <= w < ws2.len() ==> (#[trigger] b.list@[w])@.len() == 0
    ensures stored_ok(cs, ws2.len() as int), watch_ok(cs, ws2), links_ok(cs, b) {
    let n = ws.len() as int;
    assert forall|i: int| 0 <= i < cs.len() && !(#[trigger] cs[i]).dead() implies legal(cs[i].lits@, ws2.len() as int) by { assert(legal(cs[i].lits@, n)); }
    assert forall|w: int, d: ClauseId| 0 <= w < ws2.len() implies #[trigger] has_cid(ws2[w]@, d) == watched(cs, w, d) by {
        if w < n { assert(has_cid(ws[w]@, d) == watched(cs, w, d)); } else if watched(cs, w, d) { let s = cs[d.ord() as int].lits@; assert(legal(s, n)); lem_neg_below(s[0], n); lem_neg_below(s[1], n); } }
    assert forall|w: int| 0 <= w < ws2.len() implies once_w(#[trigger] ws2[w]@) by { if w < n { assert(once_w(ws[w]@)); } }
    assert forall|w: int| 0 <= w < b.list@.len() implies once_l(#[trigger] b.list@[w]@) by { if w < n { assert(once_l(a.list@[w]@)); } }
    assert forall|w: int, o: Lit, d: ClauseId| 0 <= w < b.list@.len() implies #[trigger] has_lnk(b.list@[w]@, o, d) == linked(cs, w, o, d) by {
        if w < n { assert(has_lnk(a.list@[w]@, o, d) == linked(cs, w, o, d)); } else if linked(cs, w, o, d) { assert(legal(cs[d.ord() as int].lits@, n)); } }
}
impl WatchCacheIterator {
    pub open spec fn at_end(&self) -> bool { self.index >= self.end_at }
}
/// same literals and flags everywhere
pub open spec fn same_clauses(cs: Seq<Clause>, cs2: Seq<Clause>) -> bool { cs2.len() == cs.len() && forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs2[j]).lits@ == cs[j].lits@ && cs2[j].flags == cs[j].flags }
pub proof fn lem_cnt_same(cs: Seq<Clause>, cs2: Seq<Clause>, k: int) requires same_clauses(cs, cs2) ensures cnt(cs2, k) == cnt(cs, k) decreases cs.len() {
    if cs.len() > 0 { assert(same_clauses(cs.drop_last(), cs2.drop_last())) by { assert forall|j: int| 0 <= j < cs.len() - 1 implies (#[trigger] cs2.drop_last()[j]).lits@ == cs.drop_last()[j].lits@ && cs2.drop_last()[j].flags == cs.drop_last()[j].flags by { assert(cs2.drop_last()[j] == cs2[j]); } }
        lem_cnt_same(cs.drop_last(), cs2.drop_last(), k); assert(cs2.last() == cs2[cs.len() - 1]); }
}
pub proof fn lem_same_clauses(cs: Seq<Clause>, cs2: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, a: BinaryLinkDB, fl: Seq<ClauseId>)
    requires same_clauses(cs, cs2), stored_ok(cs, ws.len() as int), watch_ok(cs, ws), links_ok(cs, a), free_ok(cs, fl)
    ensures stored_ok(cs2, ws.len() as int), watch_ok(cs2, ws), links_ok(cs2, a), free_ok(cs2, fl), forall|k: int| 0 <= k <= 2 ==> #[trigger] cnt(cs2, k) == cnt(cs, k) {
    lem_cnt_same(cs, cs2, 0); lem_cnt_same(cs, cs2, 1); lem_cnt_same(cs, cs2, 2);
    assert forall|w: int, d: ClauseId| 0 <= w < ws.len() implies #[trigger] has_cid(ws[w]@, d) == watched(cs2, w, d) by { assert(has_cid(ws[w]@, d) == watched(cs, w, d)); }
    assert(hash_ok(cs2, a.hash.map())) by {
        assert forall|k: (Lit, Lit)| #[trigger] a.hash.map().contains_key(k) implies is_bi(cs2, a.hash.map()[k]) && bikey(cs2, a.hash.map()[k]) == k by { assert(is_bi(cs, a.hash.map()[k])); }
        assert forall|d: ClauseId| #[trigger] is_bi(cs2, d) implies a.hash.map().contains_key(bikey(cs2, d)) && a.hash.map()[bikey(cs2, d)] == d by { assert(is_bi(cs, d)); }
    }
    assert forall|w: int, o: Lit, d: ClauseId| 0 <= w < a.list@.len() implies #[trigger] has_lnk(a.list@[w]@, o, d) == linked(cs2, w, o, d) by { assert(has_lnk(a.list@[w]@, o, d) == linked(cs, w, o, d)); }
    assert forall|d: ClauseId| #[trigger] fl.contains(d) <==> 1 <= d.ord() < cs2.len() && cs2[d.ord() as int].dead() by { }
}
/// the watch lists are right but for clause c, which list h lacks
pub open spec fn holed(cs: Seq<Clause>, ws: Seq<Vec<(ClauseId, Lit)>>, h: int, c: ClauseId) -> bool {
    &&& forall|w: int| 0 <= w < ws.len() ==> once_w(#[trigger] ws[w]@)
    &&& forall|w: int, d: ClauseId| 0 <= w < ws.len() ==> #[trigger] has_cid(ws[w]@, d) == (watched(cs, w, d) && !(w == h && d == c))
}
/// C14: everything but c is what it was, up to the rank
impl ClauseDB {
    pub open spec fn may_go(&self, i: int) -> bool { 1 <= i < self.clause@.len() && !self.clause@[i].dead() && self.clause@[i].flags.learnt && self.clause@[i].lits@.len() > 4 }
    /// after a reduction: clauses kept as they were, or removed ones that were removable
    pub open spec fn reduced(&self, o: &ClauseDB) -> bool {
        &&& self.nl() == o.nl() && self.clause@.len() == o.clause@.len() && self.soft_limit == o.soft_limit && self.lbd_temp@.len() == o.lbd_temp@.len()
        &&& forall|j: int| 0 <= j < o.clause@.len() ==> ((#[trigger] self.clause@[j]).lits@ == o.clause@[j].lits@ && self.clause@[j].flags == o.clause@[j].flags) || self.clause@[j].dead() && o.may_go(j)
    }
    pub open spec fn readable(&self, a: AssignStack) -> bool { forall|j: int| 0 <= j < self.clause@.len() ==> a.reads((#[trigger] self.clause@[j]).lits@) }
    /// all stamps are at most the current one
    pub open spec fn stamped(&self) -> bool { stamps(self.lbd_temp@) }
    pub open spec fn all_but_flags(&self, o: &ClauseDB, c: ClauseId) -> bool {
        &&& self.kept_but(o, c.ord() as int) && self.clause@.len() == o.clause@.len() && self.lits(c) == o.lits(c)
        &&& self.watch_cache == o.watch_cache && self.binary_link == o.binary_link && self.freelist == o.freelist && self.certification_store == o.certification_store && self.soft_limit == o.soft_limit
    }
}
pub open spec fn is_index_map(m: spec_fn(int) -> int, n: int) -> bool { (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] m(i) < n) && forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] m(i) != #[trigger] m(j) }
/// stand-in for OrderedProxy<usize>: the weight (a float) is not modelled
#[derive(Clone, Copy)]
pub struct Ranked { pub body: usize }
impl Ranked { pub fn to(&self) -> (r: usize) ensures r == self.body { self.body } }
#[verifier::external_body]
pub fn verif_ranked<T>(body: usize, weight: T) -> (r: Ranked) ensures r.body == body { unimplemented!() }
/// slice::sort puts the elements into some order
#[verifier::external_body]
pub fn verif_sort(v: &mut Vec<Ranked>) ensures final(v)@.len() == old(v)@.len(), exists|m: spec_fn(int) -> int| is_index_map(m, old(v)@.len() as int) && forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[m(i)] { unimplemented!() }
/// a weight or comparison of floats: any value
#[verifier::external_body]
pub fn verif_any<T>() -> T { unimplemented!() }
"""
B = "cdb::binary"
BI = "impl BinaryLinkIF for BinaryLinkDB"
W = "cdb::watch_cache"
WI = "impl WatchCacheIF for WatchCacheList"
D = "cdb::db"
DI = "impl ClauseDBIF for ClauseDB"
LST = [("self . list [ $$x ]", "self . list [ usize :: from ( $$x ) ]")]
CPY = [("if let Some ( & $x ) = $$e {", "if let Some ( $x ) = verif_copied ( $$e ) {")]
WCH = [("watch_cache [ $$x ]", "watch_cache [ usize :: from ( $$x ) ]")]
MM = [("$x . min ( $$y )", "lit_min ( $x , $$y )"), ("$x . max ( $$y )", "lit_max ( $x , $$y )")]
ENT = "( ClauseId , Lit )"
LNK = "( Lit , ClauseId )"


def types(u):
    """AssignStack, clauses, proof log and database with their invariants"""
    u_assign.stack(u)
    clause.types(u, base=False)
    u_cert.types(u)
    u.assume(STD, "HashMap<(Lit, Lit), ClauseId> is a finite map with insert/remove/get (stand-in LinkMap); the order of literals is that of their ordinals; Iterator::position gives the first hit (verified stand-in)")
    u.struct("cdb::binary", "BinaryLinkDB", types={"hash": "LinkMap", "list": "Vec<Vec<(Lit, ClauseId)>>"})
    u.enum("types::clause", "RefClause")
    u.text("pub type BinaryLinkList = Vec<(Lit, ClauseId)>;\npub type WatchCache = Vec<(ClauseId, Lit)>;")
    u.struct("cdb::db", "ClauseDB", keep=["clause", "binary_link", "watch_cache", "freelist", "certification_store", "soft_limit", "lbd_temp", "num_clause", "num_bi_clause", "num_learnt"])
    u.text(SPEC)
    u.text(TEXT2)
    u.text(TEXT3)
    u.assume(TEXT4, "reduce: the weights of clauses are floats and not modelled (any order, any cut-off); slice::sort permutes")
    u.struct("cdb::watch_cache", "WatchCacheIterator")
    u.enum("cdb", "ReductionType")
    u.enum("solver", "SolverEvent")

def fns(u):
    f = u.fn
    f("types", "impl < T > Delete < T > for Vec < T >", "delete_unstable", rename="delete_unstable", sig="fn delete_unstable<T, F: Fn(&T) -> bool>(verif_s: &mut Vec<T>, filter: F)",
      subst=[("self . iter ( ) . position ( filter )", "verif_position ( verif_s , filter )"), ("self", "verif_s")],
      spec="""requires forall|i: int| 0 <= i < old(verif_s)@.len() ==> #[trigger] filter.requires((&old(verif_s)@[i],))
    ensures (final(verif_s)@ == old(verif_s)@ && forall|j: int| 0 <= j < old(verif_s)@.len() ==> filter.ensures((&#[trigger] old(verif_s)@[j],), false))
        || exists|i: int| 0 <= i < old(verif_s)@.len() && filter.ensures((&#[trigger] old(verif_s)@[i],), true) && final(verif_s)@ == gone_at(old(verif_s)@, i)""",
      pre="let ghost s0 = verif_s@;", ghost=[("after_stmt", "verif_s . swap_remove", "proof { assert(filter.ensures((&s0[i as int],), true)); assert(verif_s@ =~= gone_at(s0, i as int)); }")])
    dl = [("$$r . delete_unstable ( | $p | $$e )", "delete_unstable ( & mut $$r , | $p : & ( Lit , ClauseId ) | -> ( b : bool ) ensures b == ( $$e ) { $$e } )", 2)]
    f(B, BI, "add", into="BinaryLinkDB", subst=MM + LST, spec="""requires lit0.ord() < old(self).list@.len(), lit1.ord() < old(self).list@.len(), lit0 != lit1
    ensures bi_added(*old(self), *final(self), lit0, lit1, cid), lists_once(old(self).list@) && unlinked(*old(self), lit0, lit1) ==> lists_once(final(self).list@)""",
      pre="let ghost s0 = self.list@; proof { lem_ord_eq(lit0, lit1); lem_l_push(s0[lit0.ord() as int]@, (lit1, cid)); lem_l_push(s0[lit1.ord() as int]@, (lit0, cid)); }")
    f(B, BI, "remove", into="BinaryLinkDB", subst=MM + dl + LST, spec="""requires lit0.ord() < old(self).list@.len(), lit1.ord() < old(self).list@.len(), lit0 != lit1, once_l(old(self).list@[lit0.ord() as int]@), once_l(old(self).list@[lit1.ord() as int]@)
    ensures r.is_ok(), final(self).list@.len() == old(self).list@.len(), final(self).hash.map() == old(self).hash.map().remove(lkey(lit0, lit1)),
        forall|w: int| 0 <= w < old(self).list@.len() && w != lit0.ord() && w != lit1.ord() ==> #[trigger] final(self).list@[w] == old(self).list@[w],
        once_l(final(self).list@[lit0.ord() as int]@), once_l(final(self).list@[lit1.ord() as int]@),
        forall|o: Lit, c: ClauseId| #[trigger] has_lnk(final(self).list@[lit0.ord() as int]@, o, c) == (has_lnk(old(self).list@[lit0.ord() as int]@, o, c) && o != lit1),
        forall|o: Lit, c: ClauseId| #[trigger] has_lnk(final(self).list@[lit1.ord() as int]@, o, c) == (has_lnk(old(self).list@[lit1.ord() as int]@, o, c) && o != lit0)""",
      pre="let ghost s0 = self.list@[lit0.ord() as int]@; let ghost s1 = self.list@[lit1.ord() as int]@;",
      ghost=[("before", "Ok ( ( ) )", "proof { lem_l_del_key(s0, self.list@[lit0.ord() as int]@, lit1); lem_l_del_key(s1, self.list@[lit1.ord() as int]@, lit0); }")])
    f(B, BI, "search", into="BinaryLinkDB", subst=MM, spec="ensures r.is_some() == self.hash.map().contains_key(lkey(lit0, lit1)), r.is_some() ==> *r.unwrap() == self.hash.map()[lkey(lit0, lit1)]")
    f(B, BI, "connect_with", into="BinaryLinkDB", subst=LST, spec="requires lit.ord() < self.list@.len(), ensures *r == self.list@[lit.ord() as int]")
    f(B, BI, "add_new_var", into="BinaryLinkDB", nloops=1, spec="""ensures final(self).hash == old(self).hash, final(self).list@.len() == old(self).list@.len() + 2,
        forall|w: int| 0 <= w < old(self).list@.len() ==> #[trigger] final(self).list@[w] == old(self).list@[w], forall|w: int| old(self).list@.len() <= w < final(self).list@.len() ==> #[trigger] final(self).list@[w]@.len() == 0""",
      loops={0: {"it": "it", "inv": "invariant it.iter.end == 2, self.hash == old(self).hash, self.list@.len() == old(self).list@.len() + it.index(), forall|w: int| 0 <= w < old(self).list@.len() ==> #[trigger] self.list@[w] == old(self).list@[w], forall|w: int| old(self).list@.len() <= w < self.list@.len() ==> #[trigger] self.list@[w]@.len() == 0,"}})
    u.text("""pub trait RemoveWatch { fn remove_watch(&mut self, cid: &ClauseId); }
pub trait InsertWatch { fn insert_watch(&mut self, cid: ClauseId, l: Lit); }
pub trait UpdateWatch { fn update_watch(&mut self, cid: ClauseId, l: Lit); }""")
    V = "Vec<(ClauseId, Lit)>"
    f(W, WI, "remove_watch", into=f"RemoveWatch for {V}", subst=[("self . iter ( ) . position ( | $p | $$e )", "verif_position ( self , | $p : & ( ClauseId , Lit ) | -> ( b : bool ) ensures b == ( $$e ) { $$e } )")],
      pre="let ghost s0 = self@;", post="proof { if once_w(s0) { lem_w_del_key(s0, self@, *cid); } }",
      spec="ensures once_w(old(self)@) ==> once_w(final(self)@) && forall|c: ClauseId| #[trigger] has_cid(final(self)@, c) == (has_cid(old(self)@, c) && c != *cid), forall|j: int| 0 <= j < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[j])")
    f(W, WI, "insert_watch", into=f"InsertWatch for {V}", pre="let ghost s0 = self@;", post="proof { lem_w_push(s0, (cid, l)); }",
      spec="ensures final(self)@ == old(self)@.push((cid, l)), once_w(old(self)@) && !has_cid(old(self)@, cid) ==> once_w(final(self)@), forall|c: ClauseId| #[trigger] has_cid(final(self)@, c) == (has_cid(old(self)@, c) || c == cid)")
    f(W, WI, "update_watch", into=f"UpdateWatch for {V}", nloops=1, spec="ensures once_w(old(self)@) ==> once_w(final(self)@), forall|c: ClauseId| #[trigger] has_cid(final(self)@, c) == has_cid(old(self)@, c), forall|j: int| 0 <= j < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[j]) || final(self)@[j] == (cid, l)",
      subst=[("for $e in self . iter_mut ( ) {", "for verif_i in 0 .. self . len ( ) { let $e = & mut self [ verif_i ] ;")], pre="let ghost s0 = self@;", post="proof { lem_w_same(s0, self@); }",
      loops={0: {"it": "it", "inv": "invariant it.iter.end == s0.len(), self@.len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] self@[i]).0 == s0[i].0 && (self@[i] == s0[i] || self@[i] == (cid, l)),"}})

    # ---------------- removal
    u.uses(u_cert.unit(), ["CertificationStore::is_active", "CertificationStore::add_clause", "CertificationStore::delete_clause"])
    d0 = ":: core :: default :: Default :: default ( )"
    f("cdb::unsat_certificate", "impl :: core :: default :: Default for CertificationStore", "default", into="CertificationStore", sig="fn default() -> (r: CertificationStore)", subst=[("queue : " + d0, "queue : Vec :: new ( )"), ("buffer : " + d0, "buffer : None")], drop=[("target : " + d0 + " ,", "", "the path of the file is not modelled")], spec="ensures r.wf(), !r.active()")
    f(D, None, "remove_clause_fn", subst=[("watcher : & mut [ WatchCache ]", "watcher : & mut Vec < WatchCache >"), (". expect ( $m ) ;", ". is_ok ( ) ;")],
      spec="""requires legal(old(c).lits@, old(watcher)@.len() as int), old(binary_link).list@.len() == old(watcher)@.len(), old(certification_store).wf(), old(watcher)@.len() % 2 == 0, old(watcher)@.len() < 0x8000_0000,
        old(c).lits@.len() == 2 ==> lists_once(old(binary_link).list@), old(c).lits@.len() > 2 ==> watch_once(old(watcher)@),
        *old(num_clause) >= 1, old(c).lits@.len() == 2 ==> *old(num_bi_clause) >= 1, old(c).flags.learnt ==> *old(num_learnt) >= 1,
    ensures *final(c) == (Clause { lits: final(c).lits, ..*old(c) }), final(c).lits@.len() == 0,
        *final(num_clause) == *old(num_clause) - 1, *final(num_bi_clause) == *old(num_bi_clause) - (if old(c).lits@.len() == 2 { 1int } else { 0 }), *final(num_learnt) == *old(num_learnt) - (if old(c).flags.learnt { 1int } else { 0 }),
        final(certification_store).logged(*old(certification_store), true, old(c).lits@),
        old(c).lits@.len() == 2 ==> final(watcher)@ == old(watcher)@ && bi_removed(*old(binary_link), *final(binary_link), old(c).lits@),
        old(c).lits@.len() > 2 ==> *final(binary_link) == *old(binary_link) && unwatched(old(watcher)@, final(watcher)@, cid, old(c).lits@[0].neg().ord() as int, old(c).lits@[1].neg().ord() as int),
        entries_from(old(watcher)@, final(watcher)@, cid, Seq::<Lit>::empty())""",
      pre="proof { lem_neg_props(c.lits@[0]); lem_neg_props(c.lits@[1]); lem_neg_below(c.lits@[0], watcher@.len() as int); lem_neg_below(c.lits@[1], watcher@.len() as int); }")
    nz = [("NonZeroU32 :: get ( cid . ordinal )", "cid . ordinal . get ( )")]
    f(D, DI, "remove_clause", into="ClauseDB", subst=nz, spec="""requires old(self).wf(), old(self).live(cid)
    ensures final(self).wf(), final(self).removed(old(self), cid), final(self).certification_store.logged(old(self).certification_store, true, old(self).lits(cid)), entries_from(old(self).watch_cache@, final(self).watch_cache@, cid, Seq::<Lit>::empty())""",
      pre="let ghost i0 = cid.ord() as int; proof { lem_cnt_has(self.clause@, i0, 0); if kind(self.clause@[i0], 1) { lem_cnt_has(self.clause@, i0, 1); } if kind(self.clause@[i0], 2) { lem_cnt_has(self.clause@, i0, 2); } }",
      post="proof { lem_counts(old(self).clause@, self.clause@, i0); lem_free_push(old(self).clause@, self.clause@, old(self).freelist@, cid); lem_index_removed(old(self).clause@, self.clause@, old(self).watch_cache@, self.watch_cache@, old(self).binary_link, self.binary_link, cid); }")
    f(D, DI, "remove_clause_sandbox", into="ClauseDB", subst=nz, spec="""requires old(self).index_ok(), old(self).live(cid), old(self).certification_store.wf()
    ensures final(self).index_ok(), final(self).removed(old(self), cid), final(self).certification_store == old(self).certification_store, final(self).same_counts(old(self)), entries_from(old(self).watch_cache@, final(self).watch_cache@, cid, Seq::<Lit>::empty())""",
      pre="let ghost i0 = cid.ord() as int;",
      post="proof { lem_free_push(old(self).clause@, self.clause@, old(self).freelist@, cid); lem_index_removed(old(self).clause@, self.clause@, old(self).watch_cache@, self.watch_cache@, old(self).binary_link, self.binary_link, cid); }")
    # ---------------- addition
    C = "types::clause"
    f(C, "impl Default for Clause", "default", into="Clause", sig="fn default() -> (r: Clause)", subst=[(":: alloc :: vec :: Vec :: new ( )", "Vec :: new ( )")], spec="ensures r.dead(), !r.flags.learnt, r.search_from == 2")
    f("assign::stack", "impl VarManipulateIF for AssignStack", "level", into="AssignStack", spec="requires vi < self.var@.len(), ensures r == self.var@[vi as int].level")
    f(C, "impl Clause", "update_lbd", into="Clause", subst=CDBSIG + [("lbd_temp : & mut [ usize ]", "lbd_temp : & mut Vec < usize >")], nloops=1,
      spec="""requires asg.reads(old(self).lits@), asg.levels_below(old(lbd_temp)@.len() as int), lbd_room(old(lbd_temp)@)
    ensures *final(self) == (Clause { rank: final(self).rank, ..*old(self) }), lbd_used(old(lbd_temp)@, final(lbd_temp)@), r == final(self).rank, old(self).lits@.len() < 8192 ==> r <= old(self).lits@.len()""",
      loops={0: {"inv": "invariant verif_s0@ == self.lits@, verif_i0 <= verif_s0@.len(), cnt <= verif_i0, self.lits@.len() < 8192, *self == *old(self), asg.reads(self.lits@), asg.levels_below(lbd_temp@.len() as int), lbd_room(old(lbd_temp)@), lbd_used(old(lbd_temp)@, lbd_temp@), forall|i: int| 0 <= i < self.lits@.len() ==> asg.lit_ok(#[trigger] self.lits@[i]), lbd_temp@[0] == key, decreases verif_s0@.len() - verif_i0,"}})
    f(D, "impl ClauseDB", "link_to_cid", into="ClauseDB", spec="ensures r.is_some() == self.binary_link.hash.map().contains_key(lkey(l0, l1)), r.is_some() ==> *r.unwrap() == self.binary_link.hash.map()[lkey(l0, l1)]")
    f(D, "impl IndexMut < ClauseId > for ClauseDB", "index_mut", into="ClauseDB", rename="at_mut", spec="""requires cid.ord() < old(self).clause@.len()
    ensures *r == old(self).clause@[cid.ord() as int], *final(self) == (ClauseDB { clause: final(self).clause, ..*old(self) }), final(self).clause@ == old(self).clause@.update(cid.ord() as int, *final(r))""")
    NEW = CPY + CDBSIG + nz + [("ClauseId :: from ( self . clause . len ( ) )", "ClauseId :: from_usize ( self . clause . len ( ) )"), ("& mut self [ $x ]", "self . at_mut ( $x )"), ("self [ $x ]", "( * self . at ( $x ) )")] + WCH
    stat = "statistics counter"
    newreq = """requires old(self).index_ok(), old(self).certification_store.wf(), legal(old(vec)@, old(self).nl()), old(self).clause@.len() < 0x7fff_ffff, old(asg).reads(old(vec)@), old(asg).levels_below(old(self).lbd_temp@.len() as int), lbd_room(old(self).lbd_temp@),"""
    newens = """
    ensures *final(asg) == *old(asg), lbd_used(old(self).lbd_temp@, final(self).lbd_temp@), final(self).index_ok(), final(self).certification_store.wf(),
        r matches RefClause::RegisteredClause(c) ==> *final(self) == *old(self) && old(self).live(c) && same_pair(old(self).lits(c), old(vec)@) && *final(vec) == *old(vec),
        r matches RefClause::Clause(c) ==> final(self).added(old(self), c, old(vec)@) && final(self).joined(old(self), c, old(vec)@),
        r is Clause || r is RegisteredClause,"""
    newghost = [("after", "binary_link , watch_cache , .. } = self ;", "let ghost c1 = clause@; proof { lem_neg_props(c1[cid.ord() as int].lits@[0]); lem_neg_props(c1[cid.ord() as int].lits@[1]); }"),
                ("before", "RefClause :: Clause ( cid )", "proof { lem_index_added(old(self).clause@, self.clause@, old(self).watch_cache@, self.watch_cache@, old(self).binary_link, self.binary_link, cid); lem_free_added(old(self).clause@, self.clause@, old(self).freelist@, self.freelist@, cid); }"),
                ("before", "let cid ;", "proof { if vec@.len() == 2 { lem_not_linked(self.clause@, self.binary_link, vec@[0], vec@[1]); } lem_cnt_range(self.clause@, 0); lem_cnt_range(self.clause@, 1); lem_cnt_range(self.clause@, 2); }"),
                ("before", "return RefClause :: RegisteredClause", "proof { let k = lkey(vec@[0], vec@[1]); assert(self.binary_link.hash.map().contains_key(k)); }"),
                ("after_stmt", "cid = cid_used", "proof { let fl = old(self).freelist@; assert(fl.contains(fl[fl.len() - 1])); assert(self.freelist@ =~= fl.drop_last()); }"),
                ]
    f(D, DI, "new_clause", into="ClauseDB", subst=NEW, drop=[("self . num_reregistration += 1 ;", "", stat), ("* num_bi_learnt += 1 ;", "", stat), ("if c . rank <= 2 { * num_lbd2 += 1 ; }", "", stat), ("self . lbd . update ( c . rank ) ;", "", "moving average"), ("num_bi_learnt , num_lbd2 ,", "", stat)],
      spec=newreq + "old(self).counts_ok()," + newens + """ final(self).counts_ok(),
        r matches RefClause::Clause(c) ==> final(self).certification_store.logged(old(self).certification_store, false, old(vec)@) && final(self).clause@[c.ord() as int].flags.learnt == (learnt && old(vec)@.len() > 2) && !final(self).clause@[c.ord() as int].flags.occur_linked && !final(self).clause@[c.ord() as int].flags.enqueued""",
      ghost=newghost + [("before", "RefClause :: Clause ( cid )", "proof { lem_counts_added(old(self).clause@, self.clause@, cid.ord() as int); }")])
    f(D, DI, "new_clause_sandbox", into="ClauseDB", subst=NEW,
      spec=newreq + newens + " final(self).certification_store == old(self).certification_store, final(self).same_counts(old(self))", ghost=newghost)

    # ---------------- shortening
    NEGS = "proof { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].neg().neg() == s[i] && s[i].neg().wf() && s[i].neg().ord() < watch_cache@.len() by { lem_neg_props(s[i]); lem_neg_below(s[i], watch_cache@.len() as int); } }"
    FLT = [("filter ( | & $x | $$e )", "filter ( | verif_q | { let $x = * verif_q ; $$e } )")]
    f(D, DI, "transform_by_elimination", into="ClauseDB", subst=nz + CPY + WCH + FLT, spec="""requires old(self).wf(), old(self).live(cid), old(self).lits(cid).contains(p)
    ensures final(self).wf(),
        r matches RefClause::UnitClause(l) ==> final(self).only_turned(old(self), cid) && final(self).lits(cid).len() == 2 && final(self).lits(cid)[0] == l && final(self).lits(cid)[1] == p,
        r matches RefClause::RegisteredClause(d) ==> final(self).only_turned(old(self), cid) && final(self).lits(cid) == old(self).lits(cid) && old(self).live(d) && d != cid && same_pair(old(self).lits(d), without(old(self).lits(cid), p)),
        r matches RefClause::Clause(c) ==> c == cid && final(self).rewritten(old(self), cid, without(old(self).lits(cid), p)) && final(self).lits(cid).len() == old(self).lits(cid).len() - 1 && final(self).clause@[cid.ord() as int].flags == old(self).clause@[cid.ord() as int].flags
            && final(self).certification_store.replaced(old(self).certification_store, without(old(self).lits(cid), p), old(self).lits(cid)) && entries_from(old(self).watch_cache@, final(self).watch_cache@, cid, final(self).lits(cid)) && (final(self).clause@[cid.ord() as int].search_from == old(self).clause@[cid.ord() as int].search_from || final(self).clause@[cid.ord() as int].search_from == 2),
        final(self).clause@[cid.ord() as int].search_from == old(self).clause@[cid.ord() as int].search_from || final(self).clause@[cid.ord() as int].search_from == 2,
        r is UnitClause || r is RegisteredClause || r is Clause""",
      pre="let ghost s = self.lits(cid); let ghost k = choose|k: int| 0 <= k < s.len() && s[k] == p; let ghost fp = not_lit(p); let ghost rs = without(s, p); proof { lem_without(s, k); lem_filter_ok(s, fp); lem_filter_ok(s.take(0), fp); lem_cnt_range(self.clause@, 1); assert(legal(s, self.nl())); }",
      nloops=1, loops={0: {"it": "it", "inv": "invariant lits@ == s, fp == not_lit(p), verif_r0@ == s.take(it.index() as int).filter(fp),", "top": "proof { assert(*verif_x0 == s[it.index() as int]); lem_filter_push(s, it.index() as int, fp); }", "after": "proof { assert(s.take(s.len() as int) =~= s); }"}},
      ghost=[("before", "return RefClause :: UnitClause ( lits [ 0 ] )", "proof { let cs1 = old(self).clause@; lem_turned(cs1, cs1.update(cid.ord() as int, Clause { lits: *lits, ..cs1[cid.ord() as int] }), old(self).watch_cache@, old(self).binary_link, old(self).freelist@, cid); }"),
        ("before", "return RefClause :: RegisteredClause ( reg )", "proof { let cs1 = old(self).clause@; lem_turned(cs1, cs1.update(cid.ord() as int, Clause { search_from: 2, ..cs1[cid.ord() as int] }), old(self).watch_cache@, old(self).binary_link, old(self).freelist@, cid); assert(is_bi(cs1, reg)); }"),
        ("before", "std :: mem :: swap ( lits , & mut new_lits )", NEGS + "proof { lem_not_linked(old(self).clause@, *binary_link, new_lits@[0], new_lits@[1]); lem_legal_filter(s, fp, watch_cache@.len() as int); }"),
        ("after_stmt", "binary_link . add", "proof { assert(rewatched(old(self).watch_cache@, watch_cache@, cid, -1, -1)); }"),
        ("before", "if p == old_l0", NEGS + "proof { lem_legal_filter(s, fp, watch_cache@.len() as int); }"),
        ("before", "if certification_store . is_active", "proof { if s.len() > 3 { assert(rewatched(old(self).watch_cache@, watch_cache@, cid, rs[0].neg().ord() as int, rs[1].neg().ord() as int)); } }"),
        ("before", "RefClause :: Clause ( cid )", "proof { lem_index_added(old(self).clause@, clause@, old(self).watch_cache@, watch_cache@, old(self).binary_link, *binary_link, cid); lem_counts(old(self).clause@, clause@, cid.ord() as int); lem_free_same(old(self).clause@, clause@, old(self).freelist@); }")])

    f("assign::stack", "impl VarManipulateIF for AssignStack", "var", into="AssignStack", spec="requires vi < self.var@.len(), ensures *r == self.var@[vi as int]")
    u.uses(u_assign.unit(), ["AssignStack::assigned", "Var::is"])
    DONE = "proof { lem_index_added(old(self).clause@, self.clause@, old(self).watch_cache@, self.watch_cache@, old(self).binary_link, self.binary_link, cid); lem_counts(old(self).clause@, self.clause@, cid.ord() as int); lem_free_same(old(self).clause@, self.clause@, old(self).freelist@); }"
    f(D, DI, "transform_by_simplification", into="ClauseDB", subst=CDBSIG + nz + CPY + WCH + [
          ("for $x in self [ cid ] . iter ( ) { match asg . assigned ( * $x ) {", "for verif_i in 0 .. self . at ( cid ) . lits . len ( ) { let $x = & self . at ( cid ) . lits [ verif_i ] ; match { let verif_v = asg . assigned ( * $x ) ; verif_v } {")],
      spec="""requires old(self).wf(), old(self).live(cid), old(asg).reads(old(self).lits(cid))
    ensures *final(asg) == *old(asg), final(self).wf(),
        r is Dead == some_true(*old(asg), old(self).lits(cid)),
        r is Dead ==> final(self).removed(old(self), cid) && final(self).certification_store.logged(old(self).certification_store, true, old(self).lits(cid)) && entries_from(old(self).watch_cache@, final(self).watch_cache@, cid, Seq::<Lit>::empty()),
        r is EmptyClause ==> final(self).intact(old(self)) && old(self).lits(cid).filter(is_open(*old(asg))).len() == 0,
        r matches RefClause::UnitClause(l) ==> final(self).intact(old(self)) && old(self).lits(cid).filter(is_open(*old(asg))) =~= seq![l],
        r matches RefClause::RegisteredClause(d) ==> final(self).removed(old(self), cid) && old(self).live(d) && d != cid && same_pair(old(self).lits(d), old(self).lits(cid).filter(is_open(*old(asg)))) && final(self).certification_store.logged(old(self).certification_store, true, old(self).lits(cid)) && entries_from(old(self).watch_cache@, final(self).watch_cache@, cid, Seq::<Lit>::empty()),
        r matches RefClause::Clause(c) ==> c == cid && final(self).live(cid) && final(self).lits(cid) == old(self).lits(cid).filter(is_open(*old(asg)))
            && (final(self).intact(old(self)) || final(self).rewritten(old(self), cid, old(self).lits(cid).filter(is_open(*old(asg)))) && final(self).lits(cid).len() < old(self).lits(cid).len()
                && final(self).clause@[cid.ord() as int].flags == (FlagClause { learnt: old(self).clause@[cid.ord() as int].flags.learnt && final(self).lits(cid).len() > 2, ..old(self).clause@[cid.ord() as int].flags })
                && entries_from(old(self).watch_cache@, final(self).watch_cache@, cid, final(self).lits(cid)) && final(self).clause@[cid.ord() as int].search_from == old(self).clause@[cid.ord() as int].search_from
                && final(self).certification_store.replaced(old(self).certification_store, final(self).lits(cid), old(self).lits(cid)))""",
      pre="let ghost s = self.lits(cid); let ghost fp = is_open(*asg); let ghost rs = s.filter(fp); proof { lem_filter_ok(s, fp); lem_filter_ok(s.take(0), fp); lem_cnt_range(self.clause@, 1); assert(legal(s, self.nl())); if kind(self.clause@[cid.ord() as int], 2) { lem_cnt_has(self.clause@, cid.ord() as int, 2); } if rs.len() >= 2 { lem_legal_filter(s, fp, self.nl()); } }",
      nloops=2, loops={0: {"it": "it", "inv": "invariant it.iter.end == s.len(), s == self.lits(cid), *self == *old(self), *asg == *old(asg), self.wf(), self.live(cid), asg.reads(s), fp == is_open(*asg), need_to_shrink == exists|i: int| 0 <= i < it.index() && !fp(#[trigger] s[i]), forall|i: int| 0 <= i < it.index() ==> asg.lit_value(#[trigger] s[i]) != Some(true),",
            "top": "proof { assert(asg.lit_ok(s[it.index() as int])); }", "bottom": "proof { assert(!fp(s[it.index() as int]) || fp(s[it.index() as int])); }",
            "after": "proof { if need_to_shrink { let i = choose|i: int| 0 <= i < s.len() && !fp(#[trigger] s[i]); lem_filter_less(s, fp, i); } else { lem_filter_all(s, fp); } }"},
          1: {"it": "it", "inv": "invariant c.lits@ == s, fp == is_open(*asg), asg.reads(s), verif_r0@ == s.take(it.index() as int).filter(fp),", "top": "proof { assert(*verif_x0 == s[it.index() as int]); assert(asg.lit_ok(s[it.index() as int])); lem_filter_push(s, it.index() as int, fp); }", "after": "proof { assert(s.take(s.len() as int) =~= s); }"}},
      ghost=[("before", "match new_lits . len ( )", NEGS + "proof { let cs1 = old(self).clause@; assert(cs1 =~= cs1.update(cid.ord() as int, *c)); }"),
        ("before", "watch_cache [ usize :: from ( ! c . lits [ 0 ] ) ] . remove_watch", "proof { lem_not_linked(old(self).clause@, *binary_link, new_lits@[0], new_lits@[1]); }"),
        ("before", "self . remove_clause ( cid ) ; return RefClause :: RegisteredClause", "proof { assert(self.clause@ =~= old(self).clause@); assert(is_bi(self.clause@, bid)); }"),
        ("after_stmt", "binary_link . add", "proof { assert(rewatched(old(self).watch_cache@, watch_cache@, cid, -1, -1)); }"),
        ("before", "if old_l0 == l0 && old_l1 == l1", NEGS),
        ("before", "if certification_store . is_active", "proof { assert(rewatched(old(self).watch_cache@, watch_cache@, cid, rs[0].neg().ord() as int, rs[1].neg().ord() as int)); }", 1),
        ("before", "RefClause :: Clause ( cid )", DONE, 1), ("before", "RefClause :: Clause ( cid )", DONE, 2), ("before", "return RefClause :: Dead", "proof { assert(old(self).lits(cid)[it.index() as int] == s[it.index() as int]); }")])

    # ---------------- small changes
    f(D, DI, "swap_watch", into="ClauseDB", subst=[("self [ $x ]", "self . at_mut ( $x )")], spec="requires old(self).wf(), old(self).live(cid), ensures final(self).wf(), final(self).only_turned(old(self), cid), final(self).lits(cid) == old(self).lits(cid).update(0, old(self).lits(cid)[1]).update(1, old(self).lits(cid)[0]), final(self).clause@[cid.ord() as int] == (Clause { lits: final(self).clause@[cid.ord() as int].lits, ..old(self).clause@[cid.ord() as int] })",
      pre="let ghost s = self.lits(cid); proof { assert(legal(s, self.nl())); }", post="proof { assert(turned(old(self).clause@, self.clause@, cid)); lem_turned(old(self).clause@, self.clause@, old(self).watch_cache@, old(self).binary_link, old(self).freelist@, cid); }")
    f(D, DI, "promote_learnt", into="ClauseDB", subst=nz, spec="""requires old(self).wf(), old(self).live(cid)
    ensures final(self).wf(), final(self).all_but_flags(old(self), cid), final(self).clause@[cid.ord() as int].flags == (FlagClause { learnt: false, ..old(self).clause@[cid.ord() as int].flags }), final(self).num_clause == old(self).num_clause, final(self).num_bi_clause == old(self).num_bi_clause, final(self).lbd_temp == old(self).lbd_temp, final(self).clause@[cid.ord() as int].search_from == old(self).clause@[cid.ord() as int].search_from""",
      pre="proof { if kind(self.clause@[cid.ord() as int], 2) { lem_cnt_has(self.clause@, cid.ord() as int, 2); } }",
      post="proof { let cs1 = old(self).clause@; let c2 = self.clause@[cid.ord() as int]; let cm = cs1.update(cid.ord() as int, Clause { flags: c2.flags, ..cs1[cid.ord() as int] }); lem_reflagged(cs1, self.clause@, self.watch_cache@, self.binary_link, self.freelist@, cid); lem_counts(cs1, self.clause@, cid.ord() as int); }")
    f(D, DI, "update_at_analysis", into="ClauseDB", subst=CDBSIG + nz, drop=[("if 1 < rank { self . lb_entanglement . update ( rank as f64 ) ; }", "", "moving average")],
      spec="""requires old(self).wf(), old(self).live(cid), asg.reads(old(self).lits(cid)), asg.levels_below(old(self).lbd_temp@.len() as int), lbd_room(old(self).lbd_temp@)
    ensures final(self).wf(), same_clauses(old(self).clause@, final(self).clause@), *final(self) == (ClauseDB { clause: final(self).clause, lbd_temp: final(self).lbd_temp, ..*old(self) }), lbd_used(old(self).lbd_temp@, final(self).lbd_temp@), r == old(self).clause@[cid.ord() as int].flags.learnt, forall|j: int| 0 <= j < old(self).clause@.len() ==> (#[trigger] final(self).clause@[j]).search_from == old(self).clause@[j].search_from""",
      post="", ghost=[("before", "learnt", "proof { lem_same_clauses(old(self).clause@, self.clause@, self.watch_cache@, self.binary_link, self.freelist@); }", 2)])
    f(D, DI, "certificate_add_assertion", into="ClauseDB", subst=[("& [ lit ]", "verif_one ( & [ lit ] )")], spec="requires old(self).wf(), lit.wf(), ensures final(self).wf(), *final(self) == (ClauseDB { certification_store: final(self).certification_store, ..*old(self) }), final(self).certification_store.logged(old(self).certification_store, false, seq![lit])")
    f(D, DI, "transform_by_updating_watch", into="ClauseDB", subst=nz + WCH + [("( old == 0 ) as usize", "if old == 0 { 1usize } else { 0usize }"), ("old", "ix")],
      spec="""requires stored_ok(old(self).clause@, old(self).nl()), old(self).binary_link.list@.len() == old(self).nl(), links_ok(old(self).clause@, old(self).binary_link), free_ok(old(self).clause@, old(self).freelist@), old(self).live(cid), ix < 2 <= new < old(self).lits(cid).len(),
        removed ==> holed(old(self).clause@, old(self).watch_cache@, old(self).lits(cid)[ix as int].neg().ord() as int, cid), !removed ==> watch_ok(old(self).clause@, old(self).watch_cache@),
    ensures final(self).index_ok(), old(self).counts_ok() ==> final(self).counts_ok(), final(self).rewritten(old(self), cid, old(self).lits(cid).update(ix as int, old(self).lits(cid)[new as int]).update(new as int, old(self).lits(cid)[ix as int])), final(self).same_counts(old(self)), final(self).certification_store == old(self).certification_store,
        *final(self) == (ClauseDB { clause: final(self).clause, watch_cache: final(self).watch_cache, ..*old(self) }), final(self).clause@[cid.ord() as int] == (Clause { lits: final(self).clause@[cid.ord() as int].lits, ..old(self).clause@[cid.ord() as int] }),
        removed ==> forall|w: int| 0 <= w < old(self).nl() ==> (#[trigger] final(self).watch_cache@[w])@ == (if w == old(self).lits(cid)[new as int].neg().ord() { old(self).watch_cache@[w]@.push((cid, old(self).lits(cid)[if ix == 0 { 1int } else { 0 }])) } else { old(self).watch_cache@[w]@ })""",
      pre="let ghost s = self.lits(cid); proof { assert(legal(s, self.nl())); }", ghost=[("before", "let other =", NEGS)],
      post="""proof { let s2 = self.lits(cid);
        assert(legal(s2, self.nl())) by {
            assert forall|j: int| 0 <= j < s2.len() implies (#[trigger] s2[j]).wf() && s2[j].ord() < self.nl() by { let k = if j == ix { new as int } else if j == new { ix as int } else { j }; assert(s2[j] == s[k]); }
            assert forall|j: int, k: int| 0 <= j < k < s2.len() implies (#[trigger] s2[j]).var() != (#[trigger] s2[k]).var() by {
                let a = if j == ix { new as int } else if j == new { ix as int } else { j }; let b = if k == ix { new as int } else if k == new { ix as int } else { k };
                assert(s2[j] == s[a] && s2[k] == s[b]); if a < b { assert(s[a].var() != s[b].var()); } else { assert(s[b].var() != s[a].var()); } } }
        assert(rewatched(old(self).watch_cache@, self.watch_cache@, cid, s2[0].neg().ord() as int, s2[1].neg().ord() as int));
        lem_index_added(old(self).clause@, self.clause@, old(self).watch_cache@, self.watch_cache@, old(self).binary_link, self.binary_link, cid);
        lem_counts(old(self).clause@, self.clause@, cid.ord() as int); lem_free_same(old(self).clause@, self.clause@, old(self).freelist@); }""")

    # ---------------- reduction
    f(D, DI, "reduce", into="ClauseDB", sig="fn reduce(&mut self, asg: &mut AssignStack, setting: ReductionType)", nloops=2, subst=[
        ("Vec < OrderedProxy < usize >>", "Vec < Ranked >"), ("OrderedProxy :: new ( $$x )", "verif_ranked ( $$x )"), ("c . reverse_activity_sum ( asg )", "verif_any :: < f64 > ( )"), ("c . lbd ( )", "verif_any :: < f64 > ( )"),
        ("cutoff < value . min ( c . rank as f64 )", "verif_any :: < bool > ( )"), ("value as f64", "verif_any :: < f64 > ( )"), ("( perm . len ( ) as f64 ) . powf ( 1.0 - scale ) as usize", "verif_any :: < usize > ( )"),
        ("perm . sort ( )", "verif_sort ( & mut perm )"), ("for i in perm . iter ( ) . skip ( keep ) {", "for verif_j in keep .. perm . len ( ) { let i = & perm [ verif_j ] ;"), ("ClauseId :: from ( i . to ( ) )", "ClauseId :: from_usize ( i . to ( ) )")],
      drop=[("* num_reduction += 1 ;", "", "statistics counter"), ("num_reduction ,", "", "statistics counter"), ("self . reduction_threshold = $$x ;", "", "statistics value (a float)")],
      spec="""requires old(self).wf(), old(self).readable(*old(asg)), old(asg).levels_below(old(self).lbd_temp@.len() as int), old(self).lbd_temp@.len() >= 1, old(self).lbd_temp@[0] + old(self).clause@.len() < 0x4000_0000_0000_0000
    ensures *final(asg) == *old(asg), final(self).wf(), final(self).reduced(old(self))""",
      loops={0: {"inv": """invariant verif_s0 == clause@.len(), 1 <= verif_i0 <= verif_s0, same_clauses(old(self).clause@, clause@), *asg == *old(asg), old(self).readable(*old(asg)), old(asg).levels_below(lbd_temp@.len() as int), lbd_temp@.len() == old(self).lbd_temp@.len(), lbd_temp@.len() >= 1, verif_s0 <= 0x7fff_ffff, alives < verif_i0,
            lbd_temp@[0] + 1 <= old(self).lbd_temp@[0] + verif_i0, old(self).lbd_temp@[0] + verif_s0 < 0x4000_0000_0000_0000,
 old(self).clause@.len() == verif_s0,
 forall|k: int| 0 <= k < perm@.len() ==> old(self).may_go((#[trigger] perm@[k]).body as int) && perm@[k].body < verif_i0,
 forall|k: int, l: int| 0 <= k < l < perm@.len() ==> (#[trigger] perm@[k]).body != (#[trigger] perm@[l]).body, decreases verif_s0 - verif_i0,"""},
        1: {"it": "it", "inv": """invariant self.wf(), self.nl() == old(self).nl(), self.clause@.len() == old(self).clause@.len(), self.soft_limit == old(self).soft_limit, self.lbd_temp@.len() == old(self).lbd_temp@.len(), it.iter.end == perm@.len(), *asg == *old(asg), self.clause@.len() <= 0x7fff_ffff, keep <= perm@.len() ==> it.index() <= perm@.len() - keep, 
            forall|k: int| 0 <= k < perm@.len() ==> old(self).may_go((#[trigger] perm@[k]).body as int), forall|k: int, l: int| 0 <= k < l < perm@.len() ==> (#[trigger] perm@[k]).body != (#[trigger] perm@[l]).body,
            forall|j: int| 0 <= j < self.clause@.len() ==> ((#[trigger] self.clause@[j]).lits@ == old(self).clause@[j].lits@ && self.clause@[j].flags == old(self).clause@[j].flags) || self.clause@[j].dead() && old(self).may_go(j) && exists|k: int| keep <= k < keep + it.index() && (#[trigger] perm@[k]).body == j,""",
            "bottom": """proof { assert(perm@[verif_j as int] == *i);
            assert forall|j: int| 0 <= j < self.clause@.len() implies ((#[trigger] self.clause@[j]).lits@ == old(self).clause@[j].lits@ && self.clause@[j].flags == old(self).clause@[j].flags) || self.clause@[j].dead() && old(self).may_go(j) && exists|k: int| keep <= k < keep + it.index() + 1 && (#[trigger] perm@[k]).body == j by {
                if j == i.body { assert(perm@[verif_j as int].body == j); } else { assert(self.clause@[j] == cs1[j]); if !(cs1[j].lits@ == old(self).clause@[j].lits@ && cs1[j].flags == old(self).clause@[j].flags) { let k = choose|k: int| keep <= k < keep + it.index() && (#[trigger] perm@[k]).body == j; assert(perm@[k].body == j && k < keep + it.index() + 1); } } } }""", "top": "let ghost cs1 = self.clause@; proof { let j = perm@[verif_j as int].body as int; assert(old(self).may_go(j)); assert(self.clause@[j].lits@ == old(self).clause@[j].lits@); }"}},
      ghost=[("before", "verif_sort ( & mut perm )", "let ghost p0 = perm@; proof { lem_same_clauses(old(self).clause@, self.clause@, self.watch_cache@, self.binary_link, self.freelist@); }"),
        ("after_stmt", "verif_sort ( & mut perm )", """proof { let n = p0.len() as int; let m = choose|m: spec_fn(int) -> int| is_index_map(m, n) && forall|i: int| 0 <= i < n ==> #[trigger] perm@[i] == p0[m(i)];
            assert forall|k: int| 0 <= k < perm@.len() implies old(self).may_go((#[trigger] perm@[k]).body as int) by { assert(perm@[k] == p0[m(k)]); assert(0 <= m(k) < n); assert(old(self).may_go(p0[m(k)].body as int)); }
            assert forall|k: int, l: int| 0 <= k < l < perm@.len() implies (#[trigger] perm@[k]).body != (#[trigger] perm@[l]).body by { assert(m(k) != m(l)); assert(0 <= m(k) < n && 0 <= m(l) < n); if m(k) < m(l) { assert(p0[m(k)].body != p0[m(l)].body); } else { assert(p0[m(l)].body != p0[m(k)].body); } } }""")])

    # ---------------- one more variable
    f(D, "impl Instantiate for ClauseDB", "handle", into="ClauseDB", subst=[("WatchCache :: new ( )", "Vec :: new ( )")], drop=[("self . lbd . update ( 0 ) ;", "", "moving average")], spec="""requires old(self).wf(), old(self).nl() + 2 < 0x8000_0000
    ensures final(self).wf(), final(self).clause == old(self).clause, final(self).freelist == old(self).freelist, final(self).certification_store == old(self).certification_store, final(self).same_counts(old(self)), final(self).soft_limit == old(self).soft_limit,
        final(self).nl() == old(self).nl() + (if e is NewVar { 2int } else { 0 }), final(self).lbd_temp@ == (if e is NewVar { old(self).lbd_temp@.push(0) } else { old(self).lbd_temp@ }), old(self).stamped() ==> final(self).stamped(), !(e is NewVar) ==> *final(self) == *old(self)""",
      post="proof { if e is NewVar { lem_grown(old(self).clause@, old(self).watch_cache@, self.watch_cache@, old(self).binary_link, self.binary_link); } }")
    # ---------------- going through a watch list
    WN = "impl WatchCacheIterator"
    f(W, WN, "new", into="WatchCacheIterator", spec="ensures r.index == 0, r.end_at == len")
    f(W, WN, "restore_entry", into="WatchCacheIterator", spec="requires old(self).index < usize::MAX, ensures final(self).index == old(self).index + 1, final(self).end_at == old(self).end_at")
    f(W, WN, "detach_entry", into="WatchCacheIterator", spec="requires old(self).end_at > 0, ensures final(self).end_at == old(self).end_at - 1, final(self).index == old(self).index")
    f(W, "impl Iterator for WatchCacheIterator", "next", into="WatchCacheIterator", subst=[("( $$c ) . then_some ( { $$x } )", "if $$c { Some ( $$x ) } else { None }"), ("Self :: Item", "usize")], spec="ensures *final(self) == *old(self), r == (if old(self).at_end() { None } else { Some(old(self).index) })")
    f(D, DI, "watch_cache_iter", into="ClauseDB", subst=WCH, spec="requires l.ord() < old(self).nl(), ensures *final(self) == *old(self), r.index == 0, r.end_at == old(self).watch_cache@[l.ord() as int]@.len()")
    f(D, DI, "fetch_watch_cache_entry", into="ClauseDB", sig="fn fetch_watch_cache_entry(&self, lit: Lit, wix: usize) -> (r: (ClauseId, Lit))", subst=WCH, spec="requires lit.ord() < self.nl(), wix < self.watch_cache@[lit.ord() as int]@.len(), ensures r == self.watch_cache@[lit.ord() as int]@[wix as int]")
    f(D, DI, "detach_watch_cache", into="ClauseDB", subst=WCH, spec="""requires l.ord() < old(self).nl(), once_w(old(self).watch_cache@[l.ord() as int]@), old(iter).index < old(iter).end_at, old(iter).end_at <= old(self).watch_cache@[l.ord() as int]@.len()
    ensures *final(self) == (ClauseDB { watch_cache: final(self).watch_cache, ..*old(self) }), final(self).watch_cache@ == old(self).watch_cache@.update(l.ord() as int, final(self).watch_cache@[l.ord() as int]), final(self).watch_cache@[l.ord() as int]@ == gone_at(old(self).watch_cache@[l.ord() as int]@, old(iter).index as int),
        once_w(final(self).watch_cache@[l.ord() as int]@), forall|c: ClauseId| #[trigger] has_cid(final(self).watch_cache@[l.ord() as int]@, c) == (has_cid(old(self).watch_cache@[l.ord() as int]@, c) && c != old(self).watch_cache@[l.ord() as int]@[old(iter).index as int].0),
        final(iter).index == old(iter).index, final(iter).end_at == old(iter).end_at - 1""",
      pre="let ghost w0 = self.watch_cache@[l.ord() as int]@; let ghost i0 = iter.index as int;", post="proof { assert(self.watch_cache@[l.ord() as int]@ =~= gone_at(w0, i0)); lem_w_del(w0, i0); }")
    f(D, DI, "transform_by_restoring_watch_cache", into="ClauseDB", subst=WCH, spec="""requires l.ord() < old(self).nl(), old(iter).index < old(iter).end_at, old(iter).end_at <= old(self).watch_cache@[l.ord() as int]@.len(), old(self).index_ok()
    ensures final(self).index_ok(), *final(self) == (ClauseDB { watch_cache: final(self).watch_cache, ..*old(self) }), final(self).nl() == old(self).nl(), forall|w: int| 0 <= w < old(self).nl() && w != l.ord() ==> #[trigger] final(self).watch_cache@[w] == old(self).watch_cache@[w],
        final(self).watch_cache@[l.ord() as int]@.len() == old(self).watch_cache@[l.ord() as int]@.len(), forall|i: int| 0 <= i < old(self).watch_cache@[l.ord() as int]@.len() ==> (#[trigger] final(self).watch_cache@[l.ord() as int]@[i]).0 == old(self).watch_cache@[l.ord() as int]@[i].0,
        forall|i: int| 0 <= i < old(self).watch_cache@[l.ord() as int]@.len() && i != old(iter).index ==> #[trigger] final(self).watch_cache@[l.ord() as int]@[i] == old(self).watch_cache@[l.ord() as int]@[i],
        final(self).watch_cache@[l.ord() as int]@[old(iter).index as int].1 == (if op.is_some() { op.unwrap() } else { old(self).watch_cache@[l.ord() as int]@[old(iter).index as int].1 }),
        final(iter).index == old(iter).index + 1, final(iter).end_at == old(iter).end_at""",
      ghost=[("before", "iter . restore_entry", """proof { let w = l.ord() as int; lem_w_same(old(self).watch_cache@[w]@, self.watch_cache@[w]@);
        assert forall|v: int| 0 <= v < self.nl() implies once_w(#[trigger] self.watch_cache@[v]@) by { assert(once_w(old(self).watch_cache@[v]@)); }
        assert forall|v: int, d: ClauseId| 0 <= v < self.nl() implies #[trigger] has_cid(self.watch_cache@[v]@, d) == watched(self.clause@, v, d) by { assert(has_cid(old(self).watch_cache@[v]@, d) == watched(old(self).clause@, v, d)); } }""")])

    f(D, DI, "minimize_with_bi_clauses", into="ClauseDB", nloops=2, subst=CDBSIG + nz + [
          ("for l in & vec [ 1 .. ] {", "for verif_k in 1 .. vec . len ( ) { let l = & vec [ verif_k ] ;"), ("for ( _ , cid ) in self . binary_link . connect_with ( l0 ) . iter ( ) {", "for verif_k in 0 .. self . binary_link . connect_with ( l0 ) . len ( ) { let cid = & self . binary_link . connect_with ( l0 ) [ verif_k ] . 1 ;"),
          ("c [ ( c [ 0 ] == l0 ) as usize ]", "c . lits [ if c . lits [ 0 ] == l0 { 1usize } else { 0usize } ]"),
          ("vec . retain ( | l | $$e ) ;", "let verif_t = & self . lbd_temp ; verif_retain ( vec , | l : & Lit | -> ( b : bool ) requires l . var ( ) < verif_t @ . len ( ) , ensures b == ( verif_t @ [ l . var ( ) as int ] == key ) { $$e } , Ghost ( fp ) ) ;"), ("self . lbd_temp [ l . vi ( ) ] == key )", "verif_t [ l . vi ( ) ] == key )")],
      drop=[("num_sat += 1 ;", "num_sat = 1 ;", "only its being positive matters")],
      spec="""requires old(self).index_ok(), old(self).lbd_temp@.len() == asg.var@.len(), old(self).stamped(), lbd_room(old(self).lbd_temp@), clause_ok(old(vec)@), asg.reads(old(vec)@), old(self).readable(*asg),
        old(vec)@.len() > 0 ==> old(vec)@[0].ord() < old(self).nl(), forall|i: int| 1 <= i < old(vec)@.len() ==> asg.lit_value(#[trigger] old(vec)@[i]) == Some(false)
    ensures *final(self) == (ClauseDB { lbd_temp: final(self).lbd_temp, ..*old(self) }), final(self).stamped(), final(self).index_ok(), lbd_used(old(self).lbd_temp@, final(self).lbd_temp@),
        old(vec)@.len() > 0 ==> final(vec)@.len() > 0 && final(vec)@[0] == old(vec)@[0],
        forall|l: Lit| #[trigger] final(vec)@.contains(l) ==> old(vec)@.contains(l), clause_ok(final(vec)@),
        forall|m: Val| sat_bi(m, old(self).clause@) && #[trigger] satisfies(m, old(vec)@) ==> satisfies(m, final(vec)@)""",
      pre="let ghost s = vec@; let ghost cs = self.clause@;",
      loops={0: {"it": "it", "inv": """invariant it.iter.end == s.len(), s == vec@, s.len() > 1, s == old(vec)@, asg.reads(s), *self == (ClauseDB { lbd_temp: self.lbd_temp, ..*old(self) }), self.lbd_temp@.len() == asg.var@.len(), self.stamped(), key == self.lbd_temp@[0], key == old(self).lbd_temp@[0] + 1,
            forall|v: int| 1 <= v < self.lbd_temp@.len() && #[trigger] self.lbd_temp@[v] == key ==> contains_var(s.skip(1), v), forall|i: int| 1 <= i < 1 + it.index() ==> self.lbd_temp@[(#[trigger] s[i]).var() as int] == key,""",
            "top": "proof { assert(asg.lit_ok(s[verif_k as int])); assert(s.skip(1)[verif_k - 1] == s[verif_k as int]); }"},
        1: {"it": "it", "inv": """invariant s == vec@, s.len() > 1, s == old(vec)@, cs == old(self).clause@, l0 == s[0], l0.ord() < self.nl(), asg.reads(s), old(self).index_ok(), old(self).readable(*asg), *self == (ClauseDB { lbd_temp: self.lbd_temp, ..*old(self) }), self.lbd_temp@.len() == asg.var@.len(), self.stamped(), key == self.lbd_temp@[0], key == old(self).lbd_temp@[0] + 1,
            it.iter.end == self.binary_link.list@[l0.ord() as int]@.len(), num_sat == 0 || num_sat == 1,
            forall|i: int| 1 <= i < s.len() ==> self.lbd_temp@[(#[trigger] s[i]).var() as int] == key || droppable(*asg, cs, l0, s[i].var() as int),""",
            "top": "let ghost ls = self.binary_link.list@[l0.ord() as int]@; proof { let e = ls[verif_k as int]; assert(has_lnk(ls, e.0, e.1)); assert(linked(cs, l0.ord() as int, e.0, e.1)); assert(is_bi(cs, e.1)); let t = cs[e.1.ord() as int].lits@; assert(legal(t, self.nl())); lem_ord_eq(t[0], l0); lem_ord_eq(t[1], l0); assert(asg.reads(t)); assert(asg.lit_ok(t[0]) && asg.lit_ok(t[1])); }",
            "bottom": "proof { if asg.lit_value(other) == Some(true) { assert(droppable(*asg, cs, l0, other.var() as int)); } }"}},
      ghost=[("before", "let verif_t =", "let ghost fp = |l: Lit| self.lbd_temp@[l.var() as int] == key; proof { assert(asg.lit_ok(s[0])); lem_filter_ok(s, fp); lem_filter_first(s, fp); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).var() < self.lbd_temp@.len() by { assert(asg.lit_ok(s[i])); } assert forall|i: int| 1 <= i < s.len() implies fp(#[trigger] s[i]) || droppable(*asg, cs, l0, s[i].var() as int) by { assert(s[i].var() != s[0].var()); } }"),
        ("after_stmt", "verif_retain (", """proof { let r = vec@; assert(r == s.filter(fp)); assert(r.contains(s[0])) by { assert(r[0] == s[0]); }
            assert forall|i: int| 1 <= i < s.len() && !r.contains(#[trigger] s[i]) implies droppable(*asg, cs, s[0], s[i].var() as int) by { assert(s.contains(s[i])); }
            assert forall|m: Val| sat_bi(m, cs) && #[trigger] satisfies(m, s) implies satisfies(m, r) by { lem_dropped(*asg, cs, s, r, m, self.nl()); } }""")])


def unit():
    u = Unit("cdb")
    types(u)
    clause.fns(u)
    clause.index(u)
    fns(u)
    return u
