"""subsumption and strengthening (C06, C08, C14)"""
import clause
import u_assign
import u_cdb
import u_elim
import u_learn
import u_prop
import u_root
import u_step
from clause import AT, CDBSIG
from unit import Unit

RLIMIT = 100

SPEC = r"""
// ---- the lists of the eliminator
pub open spec fn word(n: int) -> Lit { Lit { ordinal: NonZeroU32 { v: n as u32 } } }
pub open spec fn subset(c: Seq<Lit>, d: Seq<Lit>) -> bool { forall|i: int| 0 <= i < c.len() ==> d.contains(#[trigger] c[i]) }
impl ClauseDB { pub open spec fn has(&self, c: ClauseId) -> bool { c.ord() < self.clause@.len() && clause_ok(self.lits(c)) } }
/// numbers of clauses, or of slots clauses have left
pub open spec fn ids(s: Seq<ClauseId>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).ord() < n }
pub open spec fn occurs_ok(e: Eliminator, n: int) -> bool { forall|v: int| 0 <= v < e.var@.len() ==> ids((#[trigger] e.var@[v]).pos_occurs@, n) && ids(e.var@[v].neg_occurs@, n) }
/// the literal a queued number stands for
pub open spec fn dummy(c: ClauseId) -> Lit { word(c.ord() - 0x8000_0000) }
pub open spec fn fits(e: Eliminator, a: AssignStack, n: int) -> bool { e.var@.len() >= a.var@.len() && occurs_ok(e, n) && ids(e.clause_queue@, n) }
/// only marks of variables differ
pub open spec fn tagged(a0: AssignStack, a: AssignStack) -> bool {
    &&& a == (AssignStack { var: a.var, ..a0 }) && a.var@.len() == a0.var@.len()
    &&& forall|v: int| 0 <= v < a0.var@.len() ==> #[trigger] a.var@[v] == (Var { flags: FlagVar { enqueued: a.var@[v].flags.enqueued, ..a0.var@[v].flags }, ..a0.var@[v] })
}
pub proof fn lem_tagged_trans(a: AssignStack, b: AssignStack, c: AssignStack) requires tagged(a, b), tagged(b, c) ensures tagged(a, c) {
    assert forall|v: int| 0 <= v < a.var@.len() implies #[trigger] c.var@[v] == (Var { flags: FlagVar { enqueued: c.var@[v].flags.enqueued, ..a.var@[v].flags }, ..a.var@[v] }) by { assert(b.var@[v] == (Var { flags: FlagVar { enqueued: b.var@[v].flags.enqueued, ..a.var@[v].flags }, ..a.var@[v] })); } }
/// what is true stays true
pub proof fn lem_grown_true(a: AssignStack, a2: AssignStack, l: Lit) requires grown(a, a2), a.lit_ok(l) ensures a2.lit_ok(l), tru(a, l) ==> tru(a2, l), fls(a, l) ==> fls(a2, l) { let v = l.var() as int; assert(a2.var@[v].flags.eliminated == a.var@[v].flags.eliminated); }
pub proof fn lem_tagged_rooted(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack) requires rooted(a0, d0, a, d), tagged(a, a2) ensures rooted(a0, d0, a2, d), rooted(a, d, a2, d) {
    let cs = d.clause@;
    assert(a2.same_assignment(&a)) by { assert forall|v: int| 0 <= v < a2.var@.len() implies #[trigger] a2.same_var(&a, v) by { assert(a2.var@[v] == a2.var@[v]); } }
    assert(a2.saved_ok()) by { assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies a2.lit_ok(#[trigger] a2.trail_saved@[i]) && a2.var@[a2.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(a.lit_ok(a.trail_saved@[i])); } }
    assert(a2.heap_ok());
    a.lem_same(&a2);
    assert(a2.queue_ok()) by { assert forall|v: int| #[trigger] a2.open_var(v) implies a2.kept(v) by { assert(a2.var@[v] == a2.var@[v]); assert(a.open_var(v)); assert(a.kept(v)); if a.saved(v) { let i = choose|i: int| 0 <= i < a.trail_saved@.len() && #[trigger] a.trail_saved@[i].var() == v; assert(a2.trail_saved@[i].var() == v); } } }
    lem_root_expl(a2, cs);
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); assert forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() implies { let e = d.watch_cache@[w]@[j]; a2.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a2, e.1) && lev(a2, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(a.lit_ok(e.1)); assert(a2.var@[e.1.var() as int] == a2.var@[e.1.var() as int]); } }
    assert(upto(a2)) by { assert forall|i: int| a2.q_head <= i < a2.trail@.len() implies lev(a2, #[trigger] a2.trail@[i]) == a2.trail_lim@.len() by { assert(lev(a, a.trail@[i]) == a.trail_lim@.len()); assert(a.lit_ok(a.trail@[i])); assert(a2.var@[a.trail@[i].var() as int] == a2.var@[a.trail@[i].var() as int]); } }
    assert(clean(a2, cs)) by { reveal(clean); assert forall|c: ClauseId, k: int| #![trigger cs[c.ord() as int].lits@[k]] live(cs, c) && 0 <= k < cs[c.ord() as int].lits@.len() implies !a2.gone(cs[c.ord() as int].lits@[k].var() as int) by { let x = cs[c.ord() as int].lits@[k]; lem_lits(a, d, c, k); assert(a2.var@[x.var() as int] == a2.var@[x.var() as int]); } }
    assert(grown(a, a2)) by { assert forall|v: int| 0 <= v < a.var@.len() implies (#[trigger] a2.var@[v]).flags.ca_seen == a.var@[v].flags.ca_seen && a2.var@[v].flags.eliminated == a.var@[v].flags.eliminated && (a2.var@[v].level == a.var@[v].level || a2.var@[v].level == 0) && (1 <= v && a.var@[v].assign.is_some() ==> a2.var@[v].assign == a.var@[v].assign) by { } }
    assert(same_root(a, a2)) by { assert forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() implies a2.root_value(v) == a.root_value(v) by { assert(a2.var@[v].assign == a.var@[v].assign); } }
    lem_same_root(a, a2, cs); lem_same_more(a, a2); lem_lasting_same(a, cs, a2);
    assert(rooted(a, d, a2, d));
    lem_rooted_trans(a0, d0, a, d, a2, d);
}
/// only marks of clauses differ
pub open spec fn marks(d: ClauseDB, d2: ClauseDB) -> bool {
    &&& d2 == (ClauseDB { clause: d2.clause, ..d }) && d2.clause@.len() == d.clause@.len()
    &&& forall|j: int| 0 <= j < d.clause@.len() ==> (#[trigger] d2.clause@[j]).lits@ == d.clause@[j].lits@ && d2.clause@[j].flags.learnt == d.clause@[j].flags.learnt && d2.clause@[j].search_from == d.clause@[j].search_from
}
pub proof fn lem_marks_trans(a: ClauseDB, b: ClauseDB, c: ClauseDB) requires marks(a, b), marks(b, c) ensures marks(a, c) {
    assert forall|j: int| 0 <= j < a.clause@.len() implies (#[trigger] c.clause@[j]).lits@ == a.clause@[j].lits@ && c.clause@[j].flags.learnt == a.clause@[j].flags.learnt && c.clause@[j].search_from == a.clause@[j].search_from by { assert(b.clause@[j].lits@ == a.clause@[j].lits@); } }
proof fn lem_cnt_marks(cs: Seq<Clause>, cs2: Seq<Clause>, k: int) requires cs2.len() == cs.len(), forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs2[j]).lits@ == cs[j].lits@ && cs2[j].flags.learnt == cs[j].flags.learnt ensures cnt(cs2, k) == cnt(cs, k) decreases cs.len() {
    if cs.len() > 0 { let u = cs.drop_last(); let u2 = cs2.drop_last(); assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u2[j]).lits@ == u[j].lits@ && u2[j].flags.learnt == u[j].flags.learnt by { assert(cs2[j].lits@ == cs[j].lits@); }
        lem_cnt_marks(u, u2, k); assert(cs2.last() == cs2[cs.len() - 1]); assert(cs2[cs.len() - 1].lits@ == cs[cs.len() - 1].lits@); }
}
pub proof fn lem_marks_wf(d: ClauseDB, d2: ClauseDB) requires d.wf(), marks(d, d2) ensures d2.wf() {
    let cs = d.clause@; let cs2 = d2.clause@; let a = d.binary_link; let ws = d.watch_cache@; let fl = d.freelist@;
    lem_cnt_marks(cs, cs2, 0); lem_cnt_marks(cs, cs2, 1); lem_cnt_marks(cs, cs2, 2);
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).lits@ == cs2[j].lits@ by { assert(cs2[j].lits@ == cs[j].lits@); }
    assert forall|w: int, e: ClauseId| 0 <= w < ws.len() implies #[trigger] has_cid(ws[w]@, e) == watched(cs2, w, e) by { assert(has_cid(ws[w]@, e) == watched(cs, w, e)); }
    assert(hash_ok(cs2, a.hash.map())) by {
        assert forall|k: (Lit, Lit)| #[trigger] a.hash.map().contains_key(k) implies is_bi(cs2, a.hash.map()[k]) && bikey(cs2, a.hash.map()[k]) == k by { assert(is_bi(cs, a.hash.map()[k])); }
        assert forall|e: ClauseId| #[trigger] is_bi(cs2, e) implies a.hash.map().contains_key(bikey(cs2, e)) && a.hash.map()[bikey(cs2, e)] == e by { assert(is_bi(cs, e)); }
    }
    assert forall|w: int, o: Lit, e: ClauseId| 0 <= w < a.list@.len() implies #[trigger] has_lnk(a.list@[w]@, o, e) == linked(cs2, w, o, e) by { assert(has_lnk(a.list@[w]@, o, e) == linked(cs, w, o, e)); }
    assert forall|e: ClauseId| #[trigger] fl.contains(e) <==> 1 <= e.ord() < cs2.len() && cs2[e.ord() as int].dead() by { }
}
/// as lem_wf says, and what the clauses say and what is permanent is the same, or more is permanent
pub proof fn lem_marks_rooted(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB) requires rooted(a0, d0, a, d), marks(d, d2) ensures rooted(a0, d0, a, d2), rooted(a, d, a, d2) { lem_marks_wf(d, d2); lem_flag_rooted(a0, d0, a, d, d2); }
pub proof fn lem_flag_rooted(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB)
    requires rooted(a0, d0, a, d), d2.wf(), d2.clause@.len() == d.clause@.len(), d2.watch_cache == d.watch_cache, d2.soft_limit == d.soft_limit, d2.lbd_temp == d.lbd_temp, d2.nl() == d.nl(),
        forall|j: int| 0 <= j < d.clause@.len() ==> (#[trigger] d2.clause@[j]).lits@ == d.clause@[j].lits@ && d2.clause@[j].search_from == d.clause@[j].search_from && (d2.clause@[j].flags.learnt ==> d.clause@[j].flags.learnt)
    ensures rooted(a0, d0, a, d2), rooted(a, d, a, d2) {
    let cs = d.clause@; let cs2 = d2.clause@;
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).lits@ == cs2[j].lits@ by { assert(cs2[j].lits@ == cs[j].lits@); }
    assert(d2.readable(a)) by { assert forall|j: int| 0 <= j < cs2.len() implies a.reads((#[trigger] cs2[j]).lits@) by { assert(a.reads(cs[j].lits@)); } }
    assert(blockers_ok(a, d2)) by { reveal(blockers_ok); assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d2.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(has_cid(d.watch_cache@[w]@, e.0)); assert(watched(cs, w, e.0)); assert(d2.lits(e.0) == d.lits(e.0)); } }
    assert(from_ok(cs2)) by { assert forall|j: int| 0 <= j < cs2.len() implies (#[trigger] cs2[j]).search_from >= 2 by { assert(cs[j].search_from >= 2); } }
    lem_root_expl(a, cs2);
    assert(clean(a, cs2)) by { reveal(clean); assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && 0 <= i < cs2[e.ord() as int].lits@.len() implies !a.gone(cs2[e.ord() as int].lits@[i].var() as int) by { assert(cs2[e.ord() as int].lits@ == cs[e.ord() as int].lits@); assert(live(cs, e)); assert(!a.gone(cs[e.ord() as int].lits@[i].var() as int)); } }
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by {
        if sat_all(m, cs) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(cs2[j].lits@ == cs[j].lits@); assert(!cs[j].dead()); } }
        if sat_all(m, cs2) { assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { assert(cs2[j].lits@ == cs[j].lits@); assert(!cs2[j].dead()); } } }
    assert(as_lasting(a, cs, a, cs2)) by { reveal(lasting);
        if lasting(a, cs) { assert forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) implies sat_all(m, cs2) by {
            assert forall|j: int| 0 <= j < cs.len() && perm(#[trigger] cs[j]) implies satisfies(m, cs[j].lits@) by { assert(perm(cs2[j])); lem_perm_lit(m, cs2, j); }
            assert(perm_sat(m, cs));
            assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(!cs[j].dead()); assert(satisfies(m, cs[j].lits@)); } } } }
    assert(grown(a, a));
    assert(rooted(a, d, a, d2));
    lem_rooted_trans(a0, d0, a, d, a, d2);
}
/// a short part of a clause with two literals has two literals
pub proof fn lem_part_of_two(c: Seq<Lit>, t: Seq<Lit>) requires clause_ok(c), c.len() >= 2, t.len() == 2, subset(c, t) ensures c.len() == 2 {
    if c.len() > 2 { assert(t.contains(c[0]) && t.contains(c[1]) && t.contains(c[2]));
        let i = choose|i: int| 0 <= i < t.len() && t[i] == c[0]; let j = choose|j: int| 0 <= j < t.len() && t[j] == c[1]; let k = choose|k: int| 0 <= k < t.len() && t[k] == c[2];
        assert(c[0].var() != c[1].var() && c[0].var() != c[2].var() && c[1].var() != c[2].var()); assert(i == j || i == k || j == k); } }
/// C08, C14: a clause that contains another one has been removed; the other one is permanent if it was
pub proof fn lem_subsumed(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, e: ClauseId)
    requires rooted(a0, d0, a, d), live(d.clause@, c), live(d.clause@, e), c != e, subset(d.lits(e), d.lits(c)), !d.clause@[c.ord() as int].flags.learnt ==> !d.clause@[e.ord() as int].flags.learnt,
        d2.wf(), d2.removed(&d, c), entries_from(d.watch_cache@, d2.watch_cache@, c, Seq::<Lit>::empty())
    ensures rooted(a0, d0, a, d2) {
    let cs = d.clause@; let cs2 = d2.clause@; let k = c.ord() as int; let h = e.ord() as int; let t = d.lits(c); let p = d.lits(e);
    assert(h != k) by { if h == k { lem_same_id(c, e); } }
    assert(cs2[h] == cs[h]);
    assert(shorter(d, d2, c, seq![])); 
    assert(from_ok(cs2)) by { assert forall|j: int| 0 <= j < cs2.len() implies (#[trigger] cs2[j]).search_from >= 2 by { assert(cs[j].search_from >= 2); if j != k { assert(cs2[j] == cs[j]); } } }
    lem_shorter_ready(a, d, d2, c, seq![], 0, 0);
    assert forall|x: Lit| #[trigger] p.contains(x) implies t.contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(t.contains(p[i])); }
    assert(legal(p, d.nl()) && legal(t, d.nl()));
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by {
        if sat_all(m, cs) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(cs2[j] == cs[j]); } }
        if sat_all(m, cs2) { assert(satisfies(m, cs2[h].lits@)); lem_as_sat(m, p, t); assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { if j != k { assert(cs2[j] == cs[j]); } } } }
    assert forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) && k < cs.len() && perm(cs[k]) implies satisfies(m, cs[k].lits@) by { if cs[k].flags.learnt { lem_part_of_two(p, t); } assert(perm(cs2[h])); lem_perm_lit(m, cs2, h); lem_as_sat(m, p, t); }
    lem_lasting_but(a, cs, cs2, k);
    assert(grown(a, a)); assert(rooted(a, d, a, d2)); lem_rooted_trans(a0, d0, a, d, a, d2);
}
pub proof fn lem_same_id2(e: ClauseId, c: ClauseId) ensures e != c ==> e.ord() != c.ord() { }
proof fn lem_same_id(e: ClauseId, c: ClauseId) requires e.ord() == c.ord() ensures e == c { }
/// false literals have been dropped from a clause
pub proof fn lem_shortened(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, p: Lit)
    requires rooted(a0, d0, a, d), live(d.clause@, c), d2.wf(), d2.rewritten(&d, c, without(d.lits(c), p)), d2.lits(c).len() == d.lits(c).len() - 1, d2.clause@[c.ord() as int].flags == d.clause@[c.ord() as int].flags, entries_from(d.watch_cache@, d2.watch_cache@, c, d2.lits(c)),
        d2.clause@[c.ord() as int].search_from == d.clause@[c.ord() as int].search_from || d2.clause@[c.ord() as int].search_from == 2, fls(a, p), d.lits(c).contains(p)
    ensures rooted(a0, d0, a, d2), live(d2.clause@, c) {
    let cs = d.clause@; let cs2 = d2.clause@; let k = c.ord() as int; let s = d2.lits(c);
    assert(legal(d.lits(c), d.nl()));
    lem_without_has(d.lits(c), p);
    assert forall|x: Lit| #[trigger] d.lits(c).contains(x) && !s.contains(x) implies fls(a, x) by { }
    assert(s.len() > 0);
    assert(shorter(d, d2, c, s));
    assert(from_ok(cs2)) by { assert forall|j: int| 0 <= j < cs2.len() implies (#[trigger] cs2[j]).search_from >= 2 by { assert(cs[j].search_from >= 2); if j != k { assert(cs2[j] == cs[j]); } } }
    lem_shorter_ready(a, d, d2, c, s, 0, 0); lem_shortened_models(a, d, d2, c, s); lem_shrunk_lasting(a, d, d2, c, s);
    assert(grown(a, a)); assert(rooted(a, d, a, d2)); lem_rooted_trans(a0, d0, a, d, a, d2);
}
/// a clause has been removed after its first two literals and its marks may have changed
pub open spec fn dropped(d: ClauseDB, d2: ClauseDB, d3: ClauseDB, c: ClauseId) -> bool {
    let k = c.ord() as int;
    &&& d2.clause@.len() == d.clause@.len() && d2.watch_cache == d.watch_cache && d2.soft_limit == d.soft_limit && d2.lbd_temp == d.lbd_temp && (forall|j: int| 0 <= j < d.clause@.len() && j != k ==> #[trigger] d2.clause@[j] == d.clause@[j])
    &&& d2.clause@[k].search_from == d.clause@[k].search_from || d2.clause@[k].search_from == 2
    &&& d3.wf() && d3.removed(&d2, c) && entries_from(d2.watch_cache@, d3.watch_cache@, c, Seq::<Lit>::empty())
}
proof fn lem_dropped_ready(a: AssignStack, d: ClauseDB, d2: ClauseDB, d3: ClauseDB, c: ClauseId) requires ready(a, d), a.trail_lim@.len() == 0, clean(a, d.clause@), live(d.clause@, c), dropped(d, d2, d3, c) ensures shorter(d, d3, c, seq![]), ready(a, d3), clean(a, d3.clause@), d3.clause@[c.ord() as int].dead(), d3.nl() == d.nl(), d3.clause@.len() == d.clause@.len(), d3.soft_limit == d.soft_limit, d3.lbd_temp == d.lbd_temp {
    let cs = d.clause@; let cs3 = d3.clause@; let k = c.ord() as int;
    assert forall|j: int| 0 <= j < cs.len() && j != k implies #[trigger] cs3[j] == cs[j] by { assert(d2.clause@[j] == cs[j]); assert(cs3[j] == d2.clause@[j]); }
    assert(from_ok(cs3)) by { assert forall|j: int| 0 <= j < cs3.len() implies (#[trigger] cs3[j]).search_from >= 2 by { assert(cs[j].search_from >= 2); if j != k { assert(cs3[j] == cs[j]); } } }
    assert(shorter(d, d3, c, seq![]));
    lem_shorter_ready(a, d, d3, c, seq![], 0, 0);
}
/// what is left of the clause is another clause
pub proof fn lem_strengthened_dup(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, d3: ClauseDB, c: ClauseId, e: ClauseId, p: Lit)
    requires rooted(a0, d0, a, d), live(d.clause@, c), dropped(d, d2, d3, c), live(d.clause@, e), e != c, same_pair(d.lits(e), without(d.lits(c), p))
    ensures rooted(a0, d0, a, d3) {
    lem_dropped_ready(a, d, d2, d3, c); lem_without_has(d.lits(c), p);
    lem_doubled(a, d, d3, c, e, without(d.lits(c), p));
    assert(grown(a, a)); assert(rooted(a, d, a, d3)); lem_rooted_trans(a0, d0, a, d, a, d3);
}
/// what is left of the clause is one literal
pub open spec fn rest(t: Seq<Lit>, l: Lit, p: Lit) -> bool { t.contains(l) && forall|x: Lit| #[trigger] t.contains(x) ==> x == l || x == p }
pub proof fn lem_rest(s: Seq<Lit>, t: Seq<Lit>, l: Lit, p: Lit) requires turned_lits(s, t), t.len() == 2, t[0] == l, t[1] == p ensures rest(s, l, p) {
    if t == s { assert(s[0] == l); } else { assert(t[0] == s[1] && t[1] == s[0]); assert(s[1] == l); }
    assert(s.len() == 2); assert forall|x: Lit| #[trigger] s.contains(x) implies x == l || x == p by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(i == 0 || i == 1); } }
pub proof fn lem_strengthened_true(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, d3: ClauseDB, c: ClauseId, l: Lit)
    requires rooted(a0, d0, a, d), live(d.clause@, c), dropped(d, d2, d3, c), d.lits(c).contains(l), tru(a, l)
    ensures rooted(a0, d0, a, d3) {
    lem_dropped_ready(a, d, d2, d3, c);
    let t = d.lits(c); let i = choose|i: int| 0 <= i < t.len() && t[i] == l; assert(a.lit_value(t[i]) == Some(true)); assert(some_true(a, t));
    lem_satisfied(a, d, d3, c);
    assert(grown(a, a)); assert(rooted(a, d, a, d3)); lem_rooted_trans(a0, d0, a, d, a, d3);
}
pub proof fn lem_strengthened_unit(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, d3: ClauseDB, c: ClauseId, l: Lit, p: Lit, a2: AssignStack)
    requires rooted(a0, d0, a, d), live(d.clause@, c), dropped(d, d2, d3, c), rest(d.lits(c), l, p), fls(a, p), a.asserts(&a2, l), a2.wf(), a2.queue_ok(), a.value(l.var() as int).is_none()
    ensures rooted(a0, d0, a2, d3) {
    lem_has(a, d, c, l);
    assert(stepped(a, a2, l, AssignReason::None));
    lem_unit_fixed(a, a2, d, c, l, 0);
    assert(rooted(a, d, a2, d));
    lem_rooted_trans(a0, d0, a, d, a2, d);
    lem_strengthened_true(a0, d0, a2, d, d2, d3, c, l);
}
pub proof fn lem_strengthened_none(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, c: ClauseId, l: Lit, p: Lit)
    requires rooted(a0, d0, a, d), live(d.clause@, c), rest(d.lits(c), l, p), fls(a, p), fls(a, l)
    ensures hopeless(a0, d0.clause@) { lem_all_gone(a, d, c); lem_hopeless(a0, d0.clause@, a, d.clause@); }
pub proof fn lem_without_has(t: Seq<Lit>, p: Lit) ensures forall|x: Lit| #[trigger] without(t, p).contains(x) == (t.contains(x) && x != p) { assert forall|x: Lit| #[trigger] without(t, p).contains(x) == (t.contains(x) && x != p) by { let f = not_lit(p); lem_filter_has(t, f, x); } }
"""


EXT = r"""
#[verifier::external_body] pub fn verif_min(a: usize, b: usize) -> usize { unimplemented!() }
#[verifier::external_body] pub fn verif_mul(a: usize, b: usize) -> usize { unimplemented!() }
impl VarOccHeap {
    #[verifier::external_body] pub fn insert(&mut self, occur: &Vec<LitOccurs>, vi: VarId, upward: bool) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self, asg: &mut AssignStack) ensures tagged(*old(asg), *final(asg)) { unimplemented!() }
}
/// Vec::retain: nothing is added
#[verifier::external_body] pub fn verif_retain_live(v: &mut Vec<ClauseId>, cdb: &ClauseDB) ensures no_new(old(v)@, final(v)@) { unimplemented!() }
pub fn verif_ids(s: &Vec<ClauseId>) -> (r: Vec<ClauseId>) ensures r@ == s@ { let mut r: Vec<ClauseId> = Vec::new(); let mut i = 0; while i < s.len() invariant i <= s@.len(), r@ =~= s@.take(i as int) decreases s@.len() - i { r.push(s[i]); i += 1; } assert(s@.take(i as int) =~= s@); r }
"""
SPEC2 = r"""
proof fn lem_gone_at_has(s: Seq<ClauseId>, i: int, n: int) requires 0 <= i < s.len(), ids(s, n) ensures ids(gone_at(s, i), n) { assert forall|j: int| 0 <= j < gone_at(s, i).len() implies 1 <= (#[trigger] gone_at(s, i)[j]).ord() < n by { let h = if j == i { s.len() - 1 } else { j }; assert(1 <= s[h].ord() < n); assert(1 <= s[j].ord() < n); } }
/// one entry has left a list
pub open spec fn delisted(s: Seq<ClauseId>, t: Seq<ClauseId>, c: ClauseId) -> bool { t == s && !s.contains(c) || exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && t == gone_at(s, i) }
pub open spec fn same_lists(o: Eliminator, e: Eliminator) -> bool { e == (Eliminator { var_queue: e.var_queue, ..o }) }
/// occurrence lists have become shorter, the queue of variables may have changed
pub open spec fn lessened(o: Eliminator, e: Eliminator) -> bool { e == (Eliminator { var_queue: e.var_queue, var: e.var, ..o }) && e.var@.len() == o.var@.len() && forall|n: int| #[trigger] occurs_ok(o, n) ==> occurs_ok(e, n) }
pub proof fn lem_delisted(o: Eliminator, e: Eliminator, v: int, c: ClauseId)
    requires e == (Eliminator { var: e.var, ..o }), e.var@.len() == o.var@.len(), 0 <= v < o.var@.len(), forall|w: int| 0 <= w < o.var@.len() && w != v ==> #[trigger] e.var@[w] == o.var@[w],
        delisted(o.var@[v].pos_occurs@, e.var@[v].pos_occurs@, c) && e.var@[v].neg_occurs@ == o.var@[v].neg_occurs@ || delisted(o.var@[v].neg_occurs@, e.var@[v].neg_occurs@, c) && e.var@[v].pos_occurs@ == o.var@[v].pos_occurs@
    ensures lessened(o, e) {
    assert forall|n: int| #[trigger] occurs_ok(o, n) implies occurs_ok(e, n) by {
        assert forall|w: int| 0 <= w < e.var@.len() implies ids((#[trigger] e.var@[w]).pos_occurs@, n) && ids(e.var@[w].neg_occurs@, n) by {
            assert(ids(o.var@[w].pos_occurs@, n) && ids(o.var@[w].neg_occurs@, n));
            if w == v { lem_delisted_ids(o.var@[v].pos_occurs@, e.var@[v].pos_occurs@, c, n); lem_delisted_ids(o.var@[v].neg_occurs@, e.var@[v].neg_occurs@, c, n); } } } }
proof fn lem_delisted_ids(s: Seq<ClauseId>, t: Seq<ClauseId>, c: ClauseId, n: int) requires ids(s, n) ensures delisted(s, t, c) ==> ids(t, n) { if delisted(s, t, c) && t != s { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && t == gone_at(s, i); lem_gone_at_has(s, i, n); } }
pub proof fn lem_mark_one(d0: ClauseDB, d: ClauseDB, d2: ClauseDB, k: int) requires marks(d0, d), 0 <= k < d.clause@.len(), d2 == (ClauseDB { clause: d2.clause, ..d }), d2.clause@ == d.clause@.update(k, d2.clause@[k]), d2.clause@[k].lits@ == d.clause@[k].lits@, d2.clause@[k].search_from == d.clause@[k].search_from, d2.clause@[k].flags.learnt == d.clause@[k].flags.learnt ensures marks(d0, d2) {
    assert forall|j: int| 0 <= j < d0.clause@.len() implies (#[trigger] d2.clause@[j]).lits@ == d0.clause@[j].lits@ && d2.clause@[j].flags.learnt == d0.clause@[j].flags.learnt && d2.clause@[j].search_from == d0.clause@[j].search_from by { assert(d.clause@[j].lits@ == d0.clause@[j].lits@); if j != k { assert(d2.clause@[j] == d.clause@[j]); } } }
pub proof fn lem_calm(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB) requires rooted(a0, d0, a, d) ensures rooted(a, d, a, d) { lem_rooted_start(a, d); }
pub proof fn lem_dummy(l: Lit, c: ClauseId) requires l.ord() >= 2, c.ord() == l.ord() | 0x8000_0000, l.ord() < 0x8000_0000 ensures c.lifted(), c.ord() > 0x8000_0001, dummy(c) == l { bits_tag(l.ord()); }
pub proof fn lem_on_trail(a: AssignStack, i: int) requires a.wf(), 0 <= i < a.trail@.len() ensures a.lit_ok(a.trail@[i]), tru(a, a.trail@[i]) { }
pub open spec fn queued(q: Seq<ClauseId>, n: int, a: AssignStack) -> bool { forall|i: int| 0 <= i < q.len() ==> 1 <= (#[trigger] q[i]).ord() < n || q[i].ord() > 0x8000_0001 && q[i].lifted() && a.lit_ok(dummy(q[i])) && tru(a, dummy(q[i])) }
pub open spec fn no_new(s: Seq<ClauseId>, t: Seq<ClauseId>) -> bool { forall|c: ClauseId| #[trigger] t.contains(c) ==> s.contains(c) }
proof fn lem_part_ids(s: Seq<ClauseId>, t: Seq<ClauseId>, n: int) requires ids(s, n), no_new(s, t) ensures ids(t, n) { assert forall|i: int| 0 <= i < t.len() implies 1 <= (#[trigger] t[i]).ord() < n by { assert(t.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; } }
pub proof fn lem_kept(o: Eliminator, e: Eliminator, v: int, n: int)
    requires occurs_ok(o, n), e == (Eliminator { var: e.var, ..o }), e.var@.len() == o.var@.len(), 0 <= v < o.var@.len(), forall|w: int| 0 <= w < o.var@.len() && w != v ==> #[trigger] e.var@[w] == o.var@[w], no_new(o.var@[v].pos_occurs@, e.var@[v].pos_occurs@), no_new(o.var@[v].neg_occurs@, e.var@[v].neg_occurs@)
    ensures occurs_ok(e, n) {
    assert forall|w: int| 0 <= w < e.var@.len() implies ids((#[trigger] e.var@[w]).pos_occurs@, n) && ids(e.var@[w].neg_occurs@, n) by {
        assert(ids(o.var@[w].pos_occurs@, n) && ids(o.var@[w].neg_occurs@, n));
        if w == v { lem_part_ids(o.var@[v].pos_occurs@, e.var@[v].pos_occurs@, n); lem_part_ids(o.var@[v].neg_occurs@, e.var@[v].neg_occurs@, n); } } }
pub proof fn lem_popped(q: Seq<ClauseId>, n: int, a: AssignStack) requires q.len() > 0, queued(q, n, a), ids(q, n) || q.len() == 1 ensures ids(q.drop_last(), n), 1 <= q.last().ord() < n || q.last().ord() > 0x8000_0001 && q.last().lifted() && a.lit_ok(dummy(q.last())) && tru(a, dummy(q.last())) {
    assert forall|i: int| 0 <= i < q.len() - 1 implies 1 <= (#[trigger] q.drop_last()[i]).ord() < n by { assert(q.drop_last()[i] == q[i]); } let k = q.len() - 1; assert(q[k] == q.last()); }
"""


def unit():
    u = Unit("subs")
    u_cdb.types(u)
    u.text(u_prop.DEFS)
    u.lemmas(u_prop.LEM)
    i, j = u_prop.SPEC2.index("pub proof fn lem_set_refl"), u_prop.SPEC2.index("pub proof fn lem_covered_set")
    u.lemmas(u_prop.SPEC2[i:j])
    i = u_prop.SPEC2.index("proof fn lem_not_pending")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("// ---- C10", i)])
    i = u_prop.SPEC2.index("// ---- all that holds while the literal p")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("pub proof fn lem_go_step", i)])
    i = u_prop.SPEC2.index("pub proof fn lem_counted")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("\n}\n", i) + 3])
    i = u_learn.SPEC.index("pub open spec fn holds")
    u.text(u_learn.SPEC[i:u_learn.SPEC.index("\n", i) + 1])
    i = u_learn.SPEC.index("pub open spec fn room")
    u.text(u_learn.SPEC[i:u_learn.SPEC.index("\n", i) + 1])
    i = u_step.SPEC.index("/// the same models, with what is fixed")
    u.lemmas(u_step.SPEC[i:u_step.SPEC.index("pub proof fn lem_cancel_ready", i)])
    i = u_step.SPEC.index("// ---- a clause has been added")
    u.lemmas(u_step.SPEC[i:u_step.SPEC.index("/// marks do not matter", i)])
    u.lemmas(u_step.LAST)
    u.lemmas(u_root.SPEC)
    u.enum("processor", "EliminatorMode", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.struct("processor::heap", "LitOccurs")
    u.struct("processor::heap", "VarOccHeap")
    u.struct("processor", "Eliminator")
    u.enum("processor::subsume", "Subsumable", attrs="#[derive(PartialEq, Eq, Structural)]")
    u.text(SPEC)
    u.text(SPEC2)
    u.assume(EXT, "the queue of variables of the eliminator (VarOccHeap::insert, clear) changes no more than itself and the marks ENQUEUED; Vec::retain adds nothing; products of list lengths are not modelled")
    A, D, P, R, L, E = u_assign.unit(), u_cdb.unit(), u_prop.unit(), u_root.unit(), u_learn.unit(), u_elim.unit()
    u.uses(A, ["AssignStack::assign_at_root_level", "AssignStack::assigned", "Var::is", "Var::turn_on"])
    u.uses(D, ["Clause::is_dead", "Clause::is", "Clause::len", "Clause::turn_on", "Clause::turn_off", "ClauseDB::at", "ClauseDB::at_mut", "ClauseDB::promote_learnt", "ClauseDB::transform_by_elimination", "ClauseDB::remove_clause", "ClauseDB::certificate_add_assertion", "AssignStack::var", "delete_unstable"])
    u.uses(P, ["AssignStack::propagate_sandbox"])
    u.uses(R, ["AssignStack::remains"])
    u.uses(L, ["AssignStack::reason", "AssignStack::var_mut", "AssignStack::stack", "AssignStack::stack_len"])
    u.uses(E, ["have_subsuming_lit"])
    f = u.fn
    H, S, B = "processor::heap", "processor::simplify", "processor::subsume"
    EI, EE = "impl Eliminator", "impl EliminateIF for Eliminator"
    SIG = CDBSIG + [("self [ $$a ]", "self . var [ $$a ]"), ("bool :: from ( * l )", "l . as_bool ( )"), ("bool :: from ( l )", "l . as_bool ( )"), ("& mut cdb [ $$c ]", "cdb . at_mut ( $$c )")]
    CALM = "rooted(*old(asg), *old(cdb), *old(asg), *old(cdb)), fits(*old(%s), *old(asg), old(cdb).clause@.len() as int)"
    DONE = "r.is_ok() ==> rooted(*old(asg), *old(cdb), *final(asg), *final(cdb)) && fits(*final(%s), *final(asg), final(cdb).clause@.len() as int), r.is_err() ==> hopeless(*old(asg), old(cdb).clause@)"
    f("assign::stack", "impl VarManipulateIF for AssignStack", "assign", into="AssignStack", spec="requires vi < self.var@.len(), ensures r == self.var@[vi as int].assign")
    f(H, "impl LitOccurs", "activity", into="LitOccurs", subst=[("self . pos_occurs . len ( ) . min ( self . neg_occurs . len ( ) )", "verif_min ( self . pos_occurs . len ( ) , self . neg_occurs . len ( ) )", 1)])
    f(S, EE, "enqueue_var", into="Eliminator", subst=SIG + [("let w = & mut self . var [ vi ] ;", "let w = & self . var [ vi ] ;", 1)],
      spec="""requires vi < old(self).var@.len(), vi < old(asg).var@.len()
    ensures same_lists(*old(self), *final(self)), tagged(*old(asg), *final(asg))""")
    f(S, EI, "remove_lit_occur", into="Eliminator", subst=SIG + [("w . $f . delete_unstable ( | & c | c == cid )", "delete_unstable ( & mut w . $f , | c : & ClauseId | -> ( b : bool ) ensures b == ( * c == cid ) { * c == cid } )", 2)],
      spec="""requires l.var() < old(self).var@.len(), l.var() < old(asg).var@.len()
    ensures lessened(*old(self), *final(self)), tagged(*old(asg), *final(asg))""",
      ghost=[("before", "self . enqueue_var ( asg , l . vi ( ) , true )", "proof { lem_delisted(*old(self), *self, l.var() as int, cid); }")])
    f(S, EI, "remove_cid_occur", into="Eliminator", subst=SIG + [("for l in c . iter ( ) {", "for verif_k in 0 .. c . lits . len ( ) { let l = & c . lits [ verif_k ] ;", 1)], nloops=1,
      spec="""requires old(self).var@.len() >= old(asg).var@.len(), old(asg).reads(old(c).lits@)
    ensures lessened(*old(self), *final(self)), tagged(*old(asg), *final(asg)), *final(c) == (Clause { flags: FlagClause { occur_linked: false, ..old(c).flags }, ..*old(c) })""",
      loops={0: {"it": "it", "inv": "invariant it.iter.end == c.lits@.len(), c.lits == old(c).lits, old(asg).reads(old(c).lits@), lessened(*old(self), *self), tagged(*old(asg), *asg), self.var@.len() >= asg.var@.len(), *c == (Clause { flags: FlagClause { occur_linked: false, ..old(c).flags }, ..*old(c) }),", "top": "let ghost e1 = *self; let ghost a1 = *asg; proof { assert(old(asg).lit_ok(c.lits@[verif_k as int])); }", "bottom": "proof { }"}},
      ghost=[("after", "self . remove_lit_occur ( asg , * l , cid ) ;", "proof { lem_tagged_trans(*old(asg), a1, *asg); } let ghost a2 = *asg;"), ("after", "self . enqueue_var ( asg , l . vi ( ) , true ) ;", "proof { lem_tagged_trans(*old(asg), a2, *asg); }")])
    f(S, EI, "enqueue_clause", into="Eliminator", subst=SIG,
      spec="""ensures *final(c) == (Clause { flags: FlagClause { enqueued: final(c).flags.enqueued, ..old(c).flags }, ..*old(c) }), *final(self) == (Eliminator { clause_queue: final(self).clause_queue, ..*old(self) }),
        final(self).clause_queue@ == old(self).clause_queue@ || final(self).clause_queue@ == old(self).clause_queue@.push(cid)""")
    f(S, EI, "clear_clause_queue", into="Eliminator", subst=SIG + [("for cid in & self . clause_queue {", "for verif_k in 0 .. self . clause_queue . len ( ) { let cid = & self . clause_queue [ verif_k ] ;", 1), ("cdb [ * cid ] . turn_off", "cdb . at_mut ( * cid ) . turn_off", 1)], nloops=1,
      spec="""requires ids(old(self).clause_queue@, old(cdb).clause@.len() as int)
    ensures marks(*old(cdb), *final(cdb)), *final(self) == (Eliminator { clause_queue: final(self).clause_queue, ..*old(self) }), final(self).clause_queue@.len() == 0""",
      loops={0: {"it": "it", "inv": "invariant it.iter.end == self.clause_queue@.len(), *self == *old(self), ids(self.clause_queue@, old(cdb).clause@.len() as int), marks(*old(cdb), *cdb),", "top": "let ghost d1 = *cdb;", "bottom": "proof { lem_mark_one(*old(cdb), d1, *cdb, cid.ord() as int); }"}})
    f(S, EI, "clear_var_queue", into="Eliminator", subst=SIG, spec="ensures same_lists(*old(self), *final(self)), tagged(*old(asg), *final(asg))")
    f(B, None, "strengthen_clause", subst=SIG + [("RefClause :: RegisteredClause ( _ )", "RefClause :: RegisteredClause ( verif_e )", 1), ("None => asg . assign_at_root_level ( l0 ) ,", "None => { let verif_r = asg . assign_at_root_level ( l0 ) ; verif_r }", 1)],
      spec="requires " + CALM % "elim" + """, live(old(cdb).clause@, cid), old(cdb).lits(cid).contains(l), fls(*old(asg), l)
    ensures """ + DONE % "elim",
      pre="let ghost a0 = *asg; let ghost d0 = *cdb; let ghost n = cdb.clause@.len() as int;",
      ghost=[("before", "match cdb . transform_by_elimination", "proof { assert(a0.reads(d0.lits(cid))); lem_without_has(d0.lits(cid), l); }"),
        ("before", "elim . enqueue_clause", "let ghost d1 = *cdb; proof { lem_shortened(a0, d0, a0, d0, d1, cid, l); }"),
        ("after", "elim . enqueue_clause ( cid , cdb . at_mut ( cid ) ) ;", "proof { assert(marks(d1, d1)); lem_mark_one(d1, d1, *cdb, cid.ord() as int); lem_marks_rooted(a0, d0, a0, d1, *cdb); lem_has(a0, d0, cid, l); } let ghost e1 = *elim; proof { assert(cid.ord() < n); assert(occurs_ok(e1, n)); assert(ids(e1.clause_queue@, n)); }"),
        ("after", "elim . remove_lit_occur ( asg , l , cid ) ;", "proof { lem_tagged_rooted(a0, d0, a0, *cdb, *asg); assert(fits(*elim, *asg, n)); }"),
        ("before", "elim . remove_cid_occur", "let ghost d1 = *cdb; proof { assert(marks(d1, d1)); }", 0), ("after", "let verif_r = asg . assign_at_root_level ( l0 ) ;", "proof { let s = choose|s: AssignStack| s.wf() && (a2.queue_ok() ==> s.queue_ok()) && a2.cancels(&s, 0) && s.trail_lim@.len() == 0 && #[trigger] s.asserts(asg, l0); assert(s == a2); lem_strengthened_unit(a0, d0, a2, d0, d2, *cdb, cid, l0, l, *asg); assert(fits(*elim, *asg, n)); assert(verif_r.is_ok()); }"),
        ("after", "elim . remove_cid_occur ( asg , cid , cdb . at_mut ( cid ) ) ;", "let ghost d2 = *cdb; proof { lem_mark_one(d1, d1, d2, cid.ord() as int); lem_marks_wf(d1, d2); }", 0),
        ("after", "cdb . remove_clause ( cid ) ;", "proof { lem_tagged_rooted(a0, d0, a0, d0, *asg); assert(dropped(d0, d2, *cdb, cid)); lem_strengthened_dup(a0, d0, *asg, d0, d2, *cdb, cid, verif_e, l); assert(fits(*elim, *asg, n)); }", 0),
        ("before", "elim . remove_cid_occur", "let ghost d1 = *cdb; proof { assert(marks(d1, d1)); lem_rest(d0.lits(cid), d1.lits(cid), l0, l); }", 1),
        ("after", "elim . remove_cid_occur ( asg , cid , cdb . at_mut ( cid ) ) ;", "let ghost d2 = *cdb; proof { lem_mark_one(d1, d1, d2, cid.ord() as int); lem_marks_wf(d1, d2); }", 1),
        ("after", "cdb . remove_clause ( cid ) ;", "let ghost a2 = *asg; proof { lem_tagged_rooted(a0, d0, a0, d0, a2); assert(dropped(d0, d2, *cdb, cid)); lem_has(a2, d0, cid, l0); if tru(a2, l0) { lem_strengthened_true(a0, d0, a2, d0, d2, *cdb, cid, l0); } if fls(a2, l0) { lem_strengthened_none(a0, d0, a2, d0, cid, l0, l); } }", 1),
        ])
    f(B, "impl Eliminator", "try_subsume", into="Eliminator", subst=SIG + [("cdb [ did ] . is", "cdb . at ( did ) . is", 1), ("strengthen_clause ( asg , cdb , self , did , ! l ) ? ;", "let verif_r = strengthen_clause ( asg , cdb , self , did , ! l ) ; match verif_r { Ok ( _ ) => { } Err ( verif_x ) => { return Err ( verif_x ) ; } }", 1)],
      drop=[("self . num_subsumed += 1 ;", "", "statistics")],
      spec="requires " + CALM % "self" + """, live(old(cdb).clause@, did), !cid.lifted() ==> live(old(cdb).clause@, cid) && cid != did, cid.lifted() ==> cid.ord() > 0x8000_0001 && old(asg).lit_ok(dummy(cid)) && tru(*old(asg), dummy(cid))
    ensures """ + DONE % "self" + ", r.is_ok() && !cid.lifted() ==> live(final(cdb).clause@, cid)",
      pre="let ghost a0 = *asg; let ghost d0 = *cdb; let ghost n = cdb.clause@.len() as int;",
      ghost=[("before", "self . remove_cid_occur", "let ghost d1 = *cdb; proof { lem_flag_rooted(a0, d0, a0, d0, d1); assert(a0.reads(d1.clause@[did.ord() as int].lits@)); assert(marks(d1, d1)); }"),
        ("after", "self . remove_cid_occur ( asg , did , cdb . at_mut ( did ) ) ;", "let ghost d2 = *cdb; proof { lem_mark_one(d1, d1, d2, did.ord() as int); lem_marks_rooted(a0, d0, a0, d1, d2); lem_tagged_rooted(a0, d0, a0, d2, *asg); assert(fits(*self, *asg, n)); }"),
        ("after", "cdb . remove_clause ( did ) ;", "proof { lem_same_id2(cid, did); lem_subsumed(a0, d0, *asg, d2, *cdb, did, cid); }"),
        ("before", "let verif_r = strengthen_clause", "proof { lem_neg_props(l); assert(d0.lits(did).contains(l.neg())); assert(fls(a0, l.neg())); }"),
        ("before", "self . enqueue_var", "let ghost a1 = *asg; let ghost d1 = *cdb; let ghost e1 = *self; proof { assert(a1.lit_ok(l)); }"),
        ("after", "self . enqueue_var ( asg , l . vi ( ) , true ) ;", "proof { lem_tagged_rooted(a0, d0, a1, d1, *asg); }"),
        ])
    INV = "a0 == *old(asg), d0 == *old(cdb), n == d0.clause@.len(), rooted(a0, d0, *asg, *cdb), fits(*self, *asg, n), "
    IN = INV + "1 <= best < asg.var@.len(), ids(verif_l0@, n), ids(verif_l1@, n), cid.lifted() ==> cid.ord() > 0x8000_0001 && asg.lit_ok(dummy(cid)) && tru(*asg, dummy(cid)), !cid.lifted() ==> live(cdb.clause@, cid), "
    f(S, EI, "backward_subsumption_check", into="Eliminator", nloops=4, attrs="#[verifier::exec_allows_no_decreases_clause]", subst=SIG + [
        ("ClauseId :: from ( asg . stack", "<ClauseId as From<Lit>>::from ( asg . stack", 1), ("Lit :: from ( cid )", "Lit :: from_cid ( cid )", 1),
        ("cdb . derefer ( cdb :: property :: Tusize :: NumClause )", "cdb . num_clause", 1),
        ("for l in c . iter ( ) {", "for verif_k in 0 .. c . lits . len ( ) { let l = & c . lits [ verif_k ] ;", 1),
        ("self . var [ best ] . $f . retain ( | cid | ! cdb [ * cid ] . is_dead ( ) ) ;", "verif_retain_live ( & mut self . var [ best ] . $f , cdb ) ;", 4),
        ("for cls in [ self . var [ best ] . pos_occurs . clone ( ) , self . var [ best ] . neg_occurs . clone ( ) ] . iter ( ) {", "let verif_l0 = verif_ids ( & self . var [ best ] . pos_occurs ) ; let verif_l1 = verif_ids ( & self . var [ best ] . neg_occurs ) ; for verif_h in 0 .. 2 { let cls = if verif_h == 0 { & verif_l0 } else { & verif_l1 } ;", 1),
        ("for did in cls . iter ( ) {", "for verif_j in 0 .. cls . len ( ) { let did = & cls [ verif_j ] ;", 1),
        ("let d = & cdb [ * did ] ;", "let d = cdb . at ( * did ) ;", 1),
        ("self . try_subsume ( asg , cdb , cid , * did ) ? ;", "let verif_r = self . try_subsume ( asg , cdb , cid , * did ) ; match verif_r { Ok ( _ ) => { } Err ( verif_x ) => { return Err ( verif_x ) ; } }", 1),
        ("asg . propagate_sandbox ( cdb ) . map_err ( SolverError :: RootLevelConflict ) ? ;", "match asg . propagate_sandbox ( cdb ) { Ok ( _ ) => { } Err ( verif_e ) => { return Err ( SolverError :: RootLevelConflict ( verif_e ) ) ; } }", 1)],
      spec="requires " + CALM % "self" + " ensures " + DONE % "self",
      pre="let ghost a0 = *asg; let ghost d0 = *cdb; let ghost n = cdb.clause@.len() as int;",
      loops={0: "invariant " + INV,
        1: "invariant asg.wf(), self.var@.len() >= asg.var@.len(), b < asg.var@.len(), asg.reads(c.lits@), verif_s0 == c.lits@.len(),",
        2: "invariant " + IN, 3: {"inv": "invariant " + IN + "ids(cls@, n), verif_s2 == cls@.len(),", "top": "let ghost a5 = *asg; let ghost d5 = *cdb;"}},
      ghost=[("before", "if let Some ( cid ) = self . clause_queue . pop ( ) {", "let ghost q1 = self.clause_queue@; let ghost e1 = *self; proof { assert(ids(q1, n) || q1.len() == 1); assert(queued(q1, n, *asg)); }"),
        ("after", "let c = <ClauseId as From<Lit>>::from ( asg . stack ( self . bwdsub_assigns ) ) ;", "let ghost l1 = asg.trail@[self.bwdsub_assigns as int]; proof { asg.lem_levels(); lem_dummy(l1, c); lem_on_trail(*asg, self.bwdsub_assigns as int); assert(self.clause_queue@.len() == 0); }"),
        ("after", "self . bwdsub_assigns += 1 ;", "proof { assert(self.clause_queue@ =~= seq![c]); }"),
        ("before", "if * timedout == 0", "proof { lem_popped(q1, n, *asg); assert(self.clause_queue@ =~= q1.drop_last()); } let ghost a1 = *asg; let ghost d1 = *cdb;"),
        ("after", "self . clear_clause_queue ( cdb ) ;", "let ghost d2 = *cdb; proof { lem_marks_rooted(a0, d0, a1, d1, d2); }"),
        ("before", "return Ok ( ( ) ) ;", "proof { lem_tagged_rooted(a0, d0, a1, d2, *asg); assert(occurs_ok(*self, n)); }", 0),
        ("before", "continue ;", "proof { assert(marks(d1, d1)); lem_mark_one(d1, d1, *cdb, cid.ord() as int); lem_marks_rooted(a0, d0, a1, d1, *cdb); }", 0),
        ("before", "if best == 0", "proof { if !cid.lifted() { assert(marks(d1, d1)); lem_mark_one(d1, d1, *cdb, cid.ord() as int); lem_marks_rooted(a0, d0, a1, d1, *cdb); assert(live(cdb.clause@, cid)); } }"),
        ("before", "verif_retain_live ( & mut self . var [ best ] . pos_occurs , cdb ) ;", "let ghost e5 = *self;", 0), ("before", "verif_retain_live ( & mut self . var [ best ] . pos_occurs , cdb ) ;", "let ghost e6 = *self;", 1),
        ("after", "verif_retain_live ( & mut self . var [ best ] . neg_occurs , cdb ) ;", "proof { lem_kept(e5, *self, best as int, n); }", 0), ("after", "verif_retain_live ( & mut self . var [ best ] . neg_occurs , cdb ) ;", "proof { lem_kept(e6, *self, best as int, n); }", 1),
        ("before", "let verif_r", "proof { lem_calm(a0, d0, a5, d5); assert(live(d5.clause@, *did)); }"),
        ("after_stmt", "match verif_r", "proof { lem_rooted_trans(a0, d0, a5, d5, *asg, *cdb); if cid.lifted() { lem_grown_true(a5, *asg, dummy(cid)); } }"),
        ("before", "return Err ( verif_x )", "proof { lem_hopeless(a0, d0.clause@, a5, d5.clause@); }"),
        ("before", "match asg . propagate_sandbox", "let ghost a6 = *asg; let ghost d6 = *cdb;"),
        ("after_stmt", "match asg . propagate_sandbox", "proof { lem_went(a0, d0, a6, d6, *asg, *cdb); }"),
        ("before", "return Err ( SolverError :: RootLevelConflict ( verif_e ) )", "proof { lem_went(a0, d0, a6, d6, *asg, *cdb); lem_no_way(*asg, *cdb, verif_e.0, verif_e.1); lem_hopeless(a0, d0.clause@, *asg, cdb.clause@); }"),
        ])
    return u
