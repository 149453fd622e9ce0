"""steps of the search: what happens after a conflict (C05, C06, C10)"""
import u_assign
import u_cdb
import u_learn
import u_prop
from clause import AT, CDBSIG
from unit import Unit

RLIMIT = 100

LAST = r"""
// ---- what must not be forgotten
/// a clause no reduction of the database may remove
pub open spec fn perm(c: Clause) -> bool { !c.dead() && (!c.flags.learnt || c.lits@.len() == 2) }
pub open spec fn perm_sat(m: Val, cs: Seq<Clause>) -> bool { forall|j: int| 0 <= j < cs.len() && perm(#[trigger] cs[j]) ==> satisfies(m, cs[j].lits@) }
/// m respects what is fixed at level 0
pub open spec fn agrees0(m: Val, a: AssignStack) -> bool { forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 ==> m(v) == a.var@[v].assign.unwrap() }
/// the other clauses follow from those (C14): forgetting them loses nothing
#[verifier::opaque]
pub open spec fn lasting(a: AssignStack, cs: Seq<Clause>) -> bool { forall|m: Val| #[trigger] perm_sat(m, cs) && agrees0(m, a) ==> sat_all(m, cs) }
pub open spec fn as_lasting(a: AssignStack, cs: Seq<Clause>, a2: AssignStack, cs2: Seq<Clause>) -> bool { lasting(a, cs) ==> lasting(a2, cs2) }
/// at least the same is fixed
pub open spec fn more_root(a: AssignStack, a2: AssignStack) -> bool { a2.var@.len() == a.var@.len() && forall|m: Val| #[trigger] agrees0(m, a2) ==> agrees0(m, a) }
/// the same clauses
pub proof fn lem_lasting_same(a: AssignStack, cs: Seq<Clause>, a2: AssignStack) requires more_root(a, a2) ensures as_lasting(a, cs, a2, cs) { reveal(lasting); }
pub proof fn lem_lasting_sets(a: AssignStack, cs: Seq<Clause>, cs2: Seq<Clause>) requires same_sets(cs, cs2) ensures as_lasting(a, cs, a, cs2) {
    reveal(lasting); reveal(same_sets);
    if lasting(a, cs) { assert forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) implies sat_all(m, cs2) by {
        assert forall|j: int| 0 <= j < cs.len() && perm(#[trigger] cs[j]) implies satisfies(m, cs[j].lits@) by { assert(same_set(cs[j].lits@, cs2[j].lits@)); lem_as_sat(m, cs2[j].lits@, cs[j].lits@); }
        assert(perm_sat(m, cs));
        assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(same_set(cs[j].lits@, cs2[j].lits@)); assert(!cs[j].dead()); lem_as_sat(m, cs[j].lits@, cs2[j].lits@); } } }
}
pub proof fn lem_as_sat(m: Val, s: Seq<Lit>, t: Seq<Lit>) requires forall|x: Lit| #[trigger] s.contains(x) ==> t.contains(x), satisfies(m, s) ensures satisfies(m, t) { let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(s.contains(s[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(vtrue(m, t[j])); }
/// clause number k has gone or become another one; m's that satisfy the permanent ones satisfy the old one if that was permanent, and the new one if the old clauses hold
pub proof fn lem_lasting_but(a: AssignStack, cs: Seq<Clause>, cs2: Seq<Clause>, k: int)
    requires 0 <= k < cs2.len(), cs2.len() >= cs.len(), forall|j: int| 0 <= j < cs.len() && j != k ==> #[trigger] cs2[j] == cs[j], forall|j: int| cs.len() <= j < cs2.len() && j != k ==> (#[trigger] cs2[j]).dead(),
        forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) && k < cs.len() && perm(cs[k]) ==> satisfies(m, cs[k].lits@),
        forall|m: Val| sat_all(m, cs) && #[trigger] agrees0(m, a) && !cs2[k].dead() ==> satisfies(m, cs2[k].lits@)
    ensures as_lasting(a, cs, a, cs2) {
    reveal(lasting);
    if lasting(a, cs) { assert forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) implies sat_all(m, cs2) by {
        assert forall|j: int| 0 <= j < cs.len() && perm(#[trigger] cs[j]) implies satisfies(m, cs[j].lits@) by { if j != k { assert(cs2[j] == cs[j]); } }
        assert(perm_sat(m, cs));
        assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { if j != k { assert(cs2[j] == cs[j]); } } } }
}
pub proof fn lem_lasting_clauses(a: AssignStack, cs: Seq<Clause>, cs2: Seq<Clause>) requires same_clauses(cs, cs2) ensures as_lasting(a, cs, a, cs2) {
    assert(same_sets(cs, cs2)) by { reveal(same_sets); assert forall|j: int| 0 <= j < cs.len() implies same_set(cs[j].lits@, (#[trigger] cs2[j]).lits@) && cs2[j].flags == cs[j].flags by { assert(cs2[j].lits@ == cs[j].lits@); } }
    lem_lasting_sets(a, cs, cs2); }
/// a clause that follows has been added
pub proof fn lem_lasting_added(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, s: Seq<Lit>) requires d2.added(&d, c, s), forall|m: Val| sat_all(m, d.clause@) && #[trigger] agrees0(m, a) ==> satisfies(m, s) ensures as_lasting(a, d.clause@, a, d2.clause@) {
    assert forall|m: Val| #[trigger] perm_sat(m, d2.clause@) && agrees0(m, a) && c.ord() < d.clause@.len() && perm(d.clause@[c.ord() as int]) implies satisfies(m, d.clause@[c.ord() as int].lits@) by { }
    lem_lasting_but(a, d.clause@, d2.clause@, c.ord() as int); }
pub proof fn lem_perm_lit(m: Val, cs: Seq<Clause>, j: int) requires perm_sat(m, cs), 0 <= j < cs.len(), perm(cs[j]) ensures satisfies(m, cs[j].lits@) { }
"""

SPEC = r"""
// ---- between two steps of the search
/// the stacks and the database fit together, everything that could be propagated before has been, and the marks of the analysis are clear
pub open spec fn steady(a: AssignStack, d: ClauseDB) -> bool {
    ready(a, d) && complete(a, d.clause@) && saved_just(a, d.clause@) && unseen(a) && d.lbd_temp@.len() == a.var@.len() && a.levels_below(d.lbd_temp@.len() as int) && d.stamped()
}
/// the same when a conflict has been met
pub open spec fn conflicting(a: AssignStack, d: ClauseDB) -> bool {
    ready(a, d) && complete_below(a, d.clause@) && unseen(a) && d.lbd_temp@.len() == a.var@.len() && a.levels_below(d.lbd_temp@.len() as int) && a.trail_lim@.len() > 0
}
/// the same models, with what is fixed at level 0
pub open spec fn same_models(a: AssignStack, cs: Seq<Clause>, a2: AssignStack, cs2: Seq<Clause>) -> bool { forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a2, cs2) }
// ---- taking levels back
/// what has been assigned at a level above lv is open again, the rest is as it was
pub open spec fn kept_to(a: AssignStack, a2: AssignStack, lv: int) -> bool {
    &&& a2.var@.len() == a.var@.len() && a2.trail_lim@.len() == lv
    &&& forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() && a.value(v).is_some() && a.var@[v].level > lv ==> a2.value(v).is_none()
    &&& forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() && !(a.value(v).is_some() && a.var@[v].level > lv) ==> a2.value(v) == a.value(v) && a2.var@[v].reason == a.var@[v].reason
    &&& forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() ==> a2.var@[v].level == a.var@[v].level
}
proof fn lem_kept_to(a: AssignStack, a2: AssignStack, lv: int) requires a.wf(), a.cancels(&a2, lv), 0 <= lv < a.trail_lim@.len() ensures kept_to(a, a2, lv), a2.trail@ == a.trail@.take(a.trail_lim@[lv] as int), 0 <= a.trail_lim@[lv] <= a.trail@.len() {
    assert(a.trail_lim@[lv] < a.trail@.len());
    assert forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() && !(a.value(v).is_some() && a.var@[v].level > lv) implies a2.value(v) == a.value(v) && a2.var@[v].reason == a.var@[v].reason by { assert(a2.same_var(&a, v)); }
}
/// entries of the trail below the cut are those of levels up to lv
proof fn lem_cut_at(a: AssignStack, lv: int, i: int) requires a.wf(), 0 <= lv < a.trail_lim@.len(), 0 <= i < a.trail@.len() ensures (i < a.trail_lim@[lv]) == (lev(a, a.trail@[i]) <= lv) {
    assert(a.lev_at(i)); let l = lev(a, a.trail@[i]);
    if l < lv { assert(a.trail_lim@[l] < a.trail_lim@[lv]); }
    if l > lv + 1 { assert(a.trail_lim@[lv] < a.trail_lim@[l - 1]); }
}
/// what was assigned before an entry that stays, stays
proof fn lem_cut_before(a: AssignStack, a2: AssignStack, lv: int, i: int, x: Lit)
    requires a.wf(), kept_to(a, a2, lv), 0 <= lv < a.trail_lim@.len(), a2.trail@ == a.trail@.take(a.trail_lim@[lv] as int), 0 <= i < a.trail_lim@[lv], a.lit_ok(x), a.value(x.var() as int).is_some(), !after(a, i, x.var() as int)
    ensures a2.lit_value(x) == a.lit_value(x), lev(a, x) <= lv, !after(a2, i, x.var() as int) {
    let v = x.var() as int;
    assert(a.trail_lim@[lv] < a.trail@.len());
    if a.on_trail(v) { let j = choose|j: int| 0 <= j < a.trail@.len() && #[trigger] a.trail@[j].var() == v; if j >= i { assert(after(a, i, v)); } lem_cut_at(a, lv, j); assert(a.var@[v].level == lev(a, a.trail@[j])); } else { assert(a.var@[v].assign.is_some()); }
    assert(a2.var@[v].level == a.var@[v].level);
    if after(a2, i, v) { let j = choose|j: int| i <= j < a2.trail@.len() && (#[trigger] a2.trail@[j]).var() == v; assert(a.trail@[j] == a2.trail@[j]); assert(after(a, i, v)); }
}
/// the same for any way of taking levels back
pub proof fn lem_cut_ready(a: AssignStack, a2: AssignStack, d: ClauseDB, lv: int)
    requires ready(a, d), complete_below(a, d.clause@), kept_to(a, a2, lv), a2.trail@ == a.trail@.take(a.trail_lim@[lv] as int), a2.q_head <= a2.trail@.len(), a.q_head < a2.trail@.len() ==> a2.q_head == a.q_head, a.q_head >= a2.trail@.len() ==> a2.q_head == a2.trail@.len(), a2.trail_lim@ == a.trail_lim@.take(lv), 0 <= lv < a.trail_lim@.len(), a2.wf(), a2.queue_ok()
    ensures ready(a2, d), complete(a2, d.clause@), a2.q_head == a2.trail@.len() {
    let cs = d.clause@; let lim = a.trail_lim@[lv] as int;
    assert(a.trail_lim@[lv] < a.trail@.len());
    assert(a2.q_head == lim) by { if a.q_head < lim { let q = a.q_head as int; lem_cut_at(a, lv, q); assert(lev(a, a.trail@[q]) == a.trail_lim@.len()); } }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok);
        assert forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() implies { let e = d.watch_cache@[w]@[j]; a2.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a2, e.1) && lev(a2, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(a.lit_ok(e.1)); assert(a2.var@[e.1.var() as int].level == a.var@[e.1.var() as int].level); } }
    assert(all_explained(a2, cs)) by { reveal(all_explained);
        assert forall|i: int| 0 <= i < a2.trail@.len() && lev(a2, a2.trail@[i]) > 0 implies #[trigger] explained(a2, cs, i) by {
            let l = a.trail@[i]; assert(a2.trail@[i] == l); assert(a.lit_ok(l)); lem_cut_at(a, lv, i); assert(a2.var@[l.var() as int].level == a.var@[l.var() as int].level); assert(explained(a, cs, i));
            match a.var@[l.var() as int].reason {
                AssignReason::BinaryLink(k) => { lem_cut_before(a, a2, lv, i, k); }
                AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; assert forall|j: int| 1 <= j < s.len() implies fls(a2, #[trigger] s[j]) && !after(a2, i, s[j].var() as int) by { lem_lits(a, d, c, j); assert(fls(a, s[j])); lem_cut_before(a, a2, lv, i, s[j]); } }
                _ => {}
            }
        } }
    assert(upto(a2));
    assert(complete(a2, cs)) by { reveal(complete); reveal(complete_below);
        assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 implies fine(a2, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by {
            let s = cs[c.ord() as int].lits@; let x = s[p]; lem_lits(a, d, c, p); assert(a2.var@[x.var() as int].level == a.var@[x.var() as int].level);
            if fls(a2, x) { assert(fls(a, x) && lev(a, x) <= lv); assert(covered(a, s, x)); let y = choose|y: Lit| #[trigger] s.contains(y) && tru(a, y) && lev(a, y) <= lev(a, x); lem_has(a, d, c, y); assert(a2.var@[y.var() as int].level == a.var@[y.var() as int].level); assert(tru(a2, y)); }
        } }
}
pub proof fn lem_cancel_ready(a: AssignStack, a2: AssignStack, d: ClauseDB, lv: int)
    requires ready(a, d), complete_below(a, d.clause@), a.cancels(&a2, lv), 0 <= lv < a.trail_lim@.len(), a2.wf(), a2.queue_ok()
    ensures ready(a2, d), complete(a2, d.clause@), saved_just(a2, d.clause@), a2.q_head == a2.trail@.len(), kept_to(a, a2, lv) {
    lem_kept_to(a, a2, lv); lem_cut_ready(a, a2, d, lv); lem_cancel_saved(a, a2, d, lv);
}
proof fn lem_cancel_saved(a: AssignStack, a2: AssignStack, d: ClauseDB, lv: int)
    requires ready(a, d), a.cancels(&a2, lv), 0 <= lv < a.trail_lim@.len(), kept_to(a, a2, lv), a2.trail@ == a.trail@.take(a.trail_lim@[lv] as int)
    ensures saved_just(a2, d.clause@) {
    reveal(saved_just); reveal(all_explained); let cs = d.clause@; let lim = a.trail_lim@[lv] as int; let hi = AssignStack::saved_upto(&a, lv);
    assert(a.trail_lim@[lv] < a.trail@.len());
    assert(hi <= a.trail@.len()) by { let n = a.trail_lim@.len(); if n >= 2 { assert(a.trail_lim@[n - 2] < a.trail@.len()); } }
    assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies #[trigger] saved_at(a2, cs, i) by {
        let l = a2.trail_saved@[i]; let p = hi - 1 - i; assert(a.trail@[p] == l); assert(a.lit_ok(l));
        lem_cut_at(a, lv, p); assert(explained(a, cs, p));
        assert(a2.var@[l.var() as int].reason_saved == a.var@[l.var() as int].reason);
        match a.var@[l.var() as int].reason {
            AssignReason::BinaryLink(k) => { lem_avail(a, a2, lv, i, k); }
            AssignReason::Implication(c) => {
                let s = cs[c.ord() as int].lits@; assert(s.contains(s[0]));
                assert forall|x: Lit| #[trigger] s.contains(x) && x != l implies avail(a2, i, x.neg()) by {
                    let j = choose|j: int| 0 <= j < s.len() && s[j] == x; lem_lits(a, d, c, j); lem_neg_props(x); assert(fls(a, s[j])); lem_avail(a, a2, lv, i, x.neg()); }
            }
            _ => {}
        }
    }
}
/// what was true before an entry of the saved trail is true or saved before it
proof fn lem_avail(a: AssignStack, a2: AssignStack, lv: int, i: int, k: Lit)
    requires a.wf(), a.cancels(&a2, lv), 0 <= lv < a.trail_lim@.len(), kept_to(a, a2, lv), a.lit_ok(k), tru(a, k), 0 <= i < a2.trail_saved@.len(), !after(a, AssignStack::saved_upto(&a, lv) - 1 - i, k.var() as int)
    ensures avail(a2, i, k) {
    let hi = AssignStack::saved_upto(&a, lv); let p = hi - 1 - i; let v = k.var() as int; let lim = a.trail_lim@[lv] as int;
    assert(a.trail_lim@[lv] < a.trail@.len());
    assert(hi <= a.trail@.len()) by { let n = a.trail_lim@.len(); if n >= 2 { assert(a.trail_lim@[n - 2] < a.trail@.len()); } }
    assert(a2.var@[v].level == a.var@[v].level);
    if a.on_trail(v) {
        let j = choose|j: int| 0 <= j < a.trail@.len() && #[trigger] a.trail@[j].var() == v; if j >= p { assert(after(a, p, v)); }
        lem_cut_at(a, lv, j);
        if j >= lim { assert(a.lit_ok(a.trail@[j])); lem_same_var(a.trail@[j], k); assert(a.trail@[j] == k); let q = hi - 1 - j; assert(a2.trail_saved@[q] == k); }
    } else { assert(a.var@[v].assign.is_some()); }
}
// ---- a clause has been added
pub proof fn lem_added_ready(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, s: Seq<Lit>)
    requires ready(a, d), complete(a, d.clause@), d2.added(&d, c, s), d2.joined(&d, c, s), a.reads(s), d2.wf()
    ensures ready(a, d2), saved_just(a, d.clause@) ==> saved_just(a, d2.clause@), forall|m: Val| #[trigger] sat_all(m, d2.clause@) == (sat_all(m, d.clause@) && satisfies(m, s)),
        forall|e: ClauseId, p: int| #![trigger d2.clause@[e.ord() as int].lits@[p]] live(d2.clause@, e) && 0 <= p < 2 && e.ord() != c.ord() ==> fine(a, d2.clause@[e.ord() as int].lits@, d2.clause@[e.ord() as int].lits@[p]) {
    let cs = d.clause@; let cs2 = d2.clause@;
    assert forall|j: int| 0 <= j < cs2.len() && j != c.ord() implies j < cs.len() && #[trigger] cs2[j] == cs[j] by { }
    assert(d2.readable(a)) by { assert forall|j: int| 0 <= j < cs2.len() implies a.reads((#[trigger] cs2[j]).lits@) by { if j != c.ord() { assert(a.reads(cs[j].lits@)); } } }
    assert(blockers_ok(a, d2)) by { reveal(blockers_ok);
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d2.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by {
            let e = d2.watch_cache@[w]@[j];
            if e.0 == c && s.contains(e.1) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e.1; assert(a.lit_ok(s[i])); }
            else { let k = choose|k: int| 0 <= k < d.watch_cache@[w]@.len() && d.watch_cache@[w]@[k] == e; assert(d.watch_cache@[w]@[k] == e); assert(has_cid(d.watch_cache@[w]@, e.0)); assert(watched(cs, w, e.0)); } } }
    assert(from_ok(cs2));
    assert forall|x: Lit, y: Lit| #[trigger] paired(cs, x, y) implies paired(cs2, x, y) by { let e = choose|e: ClauseId| #[trigger] is_bi(cs, e) && { let t = cs[e.ord() as int].lits@; t[0] == x && t[1] == y || t[0] == y && t[1] == x }; assert(cs2[e.ord() as int] == cs[e.ord() as int]); assert(is_bi(cs2, e)); }
    assert(all_explained(a, cs2)) by { reveal(all_explained); assert forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 implies #[trigger] explained(a, cs2, i) by { assert(explained(a, cs, i)); match a.var@[a.trail@[i].var() as int].reason { AssignReason::Implication(e) => { assert(cs[e.ord() as int] == cs2[e.ord() as int]); } _ => {} } } }
    if saved_just(a, cs) { assert(saved_just(a, cs2)) by { reveal(saved_just); assert forall|i: int| 0 <= i < a.trail_saved@.len() implies #[trigger] saved_at(a, cs2, i) by { assert(saved_at(a, cs, i)); match a.var@[a.trail_saved@[i].var() as int].reason_saved { AssignReason::Implication(e) => { assert(cs[e.ord() as int] == cs2[e.ord() as int]); } _ => {} } } } }
    assert forall|m: Val| #[trigger] sat_all(m, cs2) == (sat_all(m, cs) && satisfies(m, s)) by {
        if sat_all(m, cs2) { assert(!cs2[c.ord() as int].dead()); assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { assert(j != c.ord()); assert(cs2[j] == cs[j]); } }
        if sat_all(m, cs) && satisfies(m, s) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { if j != c.ord() { assert(cs2[j] == cs[j]); } } } }
    assert forall|e: ClauseId, p: int| #![trigger cs2[e.ord() as int].lits@[p]] live(cs2, e) && 0 <= p < 2 && e.ord() != c.ord() implies fine(a, cs2[e.ord() as int].lits@, cs2[e.ord() as int].lits@[p]) by { reveal(complete); assert(live(cs, e)); assert(cs2[e.ord() as int] == cs[e.ord() as int]); assert(fine(a, cs[e.ord() as int].lits@, cs[e.ord() as int].lits@[p])); }
}
/// its watched literals are open: all has been propagated
pub proof fn lem_added_open(a: AssignStack, d: ClauseDB, c: ClauseId)
    requires ready(a, d), live(d.clause@, c), forall|p: int| 0 <= p < 2 ==> !fls(a, #[trigger] d.lits(c)[p]),
        forall|e: ClauseId, p: int| #![trigger d.clause@[e.ord() as int].lits@[p]] live(d.clause@, e) && 0 <= p < 2 && e.ord() != c.ord() ==> fine(a, d.clause@[e.ord() as int].lits@, d.clause@[e.ord() as int].lits@[p])
    ensures complete(a, d.clause@) {
    reveal(complete); let cs = d.clause@;
    assert forall|e: ClauseId, p: int| #![trigger cs[e.ord() as int].lits@[p]] live(cs, e) && 0 <= p < 2 implies fine(a, cs[e.ord() as int].lits@, cs[e.ord() as int].lits@[p]) by { if e.ord() == c.ord() { assert(!fls(a, d.lits(c)[p])); } }
}
/// its first literal has been assigned, the others are false
pub proof fn lem_added_unit(a: AssignStack, a2: AssignStack, d: ClauseDB, c: ClauseId, r: AssignReason)
    requires ready(a, d), saved_just(a, d.clause@), live(d.clause@, c), stepped(a, a2, d.lits(c)[0], r), a.trail_lim@.len() > 0, false_but(a, d.lits(c), 0), lev(a, d.lits(c)[1]) == a.trail_lim@.len(),
        r == AssignReason::Implication(c) || d.lits(c).len() == 2 && r == AssignReason::BinaryLink(d.lits(c)[1].neg()),
        forall|e: ClauseId, p: int| #![trigger d.clause@[e.ord() as int].lits@[p]] live(d.clause@, e) && 0 <= p < 2 && e.ord() != c.ord() ==> fine(a, d.clause@[e.ord() as int].lits@, d.clause@[e.ord() as int].lits@[p])
    ensures ready(a2, d), complete(a2, d.clause@), saved_just(a2, d.clause@) {
    let cs = d.clause@; let s = d.lits(c); let l = s[0];
    lem_lits(a, d, c, 0); lem_lits(a, d, c, 1); lem_distinct(d, c, 0, 1); lem_neg_props(s[1]); lem_neg_props(s[1].neg());
    assert(fls(a, s[1]));
    assert(reason_ok(a, cs, l, r)) by { if r != AssignReason::Implication(c) { assert(is_bi(cs, c)); assert(tru(a, s[1].neg())); assert(paired(cs, s[1].neg().neg(), l)); } }
    lem_go_start(a, d);
    lem_step_ready(a, a, a2, d, l, r); lem_step_saved(a, a2, d, l, r); lem_step_val(a, a2, l, r, s[1]);
    reveal(complete);
    assert forall|e: ClauseId, p: int| #![trigger cs[e.ord() as int].lits@[p]] live(cs, e) && 0 <= p < 2 implies fine(a2, cs[e.ord() as int].lits@, cs[e.ord() as int].lits@[p]) by {
        if e.ord() != c.ord() { assert(fine(a, cs[e.ord() as int].lits@, cs[e.ord() as int].lits@[p])); lem_fine_step(a, a2, d, l, r, e, p); }
        else if p == 1 { assert(s.contains(l)); assert(covered(a2, s, s[1])); } }
}
/// a literal has been fixed at level 0
pub proof fn lem_root_ready(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), complete(a, d.clause@), stepped(a, a2, l, r), a.trail_lim@.len() == 0
    ensures ready(a2, d), complete(a2, d.clause@), saved_just(a, d.clause@) ==> saved_just(a2, d.clause@) {
    let cs = d.clause@; let n = a.trail@.len() as int;
    lem_step_complete(a, a2, d, l, r); if saved_just(a, d.clause@) { lem_step_saved(a, a2, d, l, r); }
    assert forall|i: int| 0 <= i < a2.trail@.len() implies lev(a2, #[trigger] a2.trail@[i]) == 0 by { assert(a2.lev_at(i)); }
    assert(all_explained(a2, cs)) by { reveal(all_explained); }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
}
// ---- the models
/// the same is fixed at level 0
pub open spec fn same_root(a: AssignStack, a2: AssignStack) -> bool { a2.var@.len() == a.var@.len() && forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() ==> a2.root_value(v) == a.root_value(v) }
pub proof fn lem_same_root(a: AssignStack, a2: AssignStack, cs: Seq<Clause>) requires same_root(a, a2) ensures same_models(a, cs, a2, cs) {
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a2, cs) by {
        if holds(m, a, cs) { assert forall|v: int| 1 <= v <= a2.nv() && (#[trigger] a2.var@[v]).assign.is_some() && a2.var@[v].level == 0 implies m(v) == a2.var@[v].assign.unwrap() by { assert(a2.root_value(v) == a.root_value(v)); assert(a.var@[v].assign.is_some()); } }
        if holds(m, a2, cs) { assert forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 implies m(v) == a.var@[v].assign.unwrap() by { assert(a2.root_value(v) == a.root_value(v)); assert(a2.var@[v].assign.is_some()); } } }
}
pub proof fn lem_same_more(a: AssignStack, a2: AssignStack) requires same_root(a, a2) ensures more_root(a, a2) {
    assert forall|m: Val| #[trigger] agrees0(m, a2) implies agrees0(m, a) by { assert forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 implies m(v) == a.var@[v].assign.unwrap() by { assert(a2.root_value(v) == a.root_value(v)); assert(a2.var@[v].assign.is_some()); } } }
/// what follows from the clauses can be fixed
pub proof fn lem_root_unit(a: AssignStack, a2: AssignStack, cs: Seq<Clause>, l: Lit)
    requires a2.var@.len() == a.var@.len(), a.lit_ok(l), a.root_value(l.var() as int).is_none(), a2.root_value(l.var() as int) == Some(l.sign()), forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() && v != l.var() ==> a2.root_value(v) == a.root_value(v),
        forall|m: Val| #[trigger] holds(m, a, cs) ==> vtrue(m, l)
    ensures same_models(a, cs, a2, cs) {
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a2, cs) by {
        if holds(m, a, cs) { assert forall|v: int| 1 <= v <= a2.nv() && (#[trigger] a2.var@[v]).assign.is_some() && a2.var@[v].level == 0 implies m(v) == a2.var@[v].assign.unwrap() by { if v != l.var() { assert(a2.root_value(v) == a.root_value(v)); assert(a.var@[v].assign.is_some()); } } }
        if holds(m, a2, cs) { assert forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 implies m(v) == a.var@[v].assign.unwrap() by { assert(v != l.var()); assert(a2.root_value(v) == a.root_value(v)); assert(a2.var@[v].assign.is_some()); } } }
}
pub proof fn lem_models_trans(a: AssignStack, cs: Seq<Clause>, b: AssignStack, cs2: Seq<Clause>, c: AssignStack, cs3: Seq<Clause>) requires same_models(a, cs, b, cs2), same_models(b, cs2, c, cs3) ensures same_models(a, cs, c, cs3) {
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, c, cs3) by { assert(holds(m, a, cs) == holds(m, b, cs2)); } }
/// a clause that follows has been added
pub proof fn lem_models_added(a: AssignStack, cs: Seq<Clause>, cs2: Seq<Clause>, s: Seq<Lit>) requires forall|m: Val| #[trigger] sat_all(m, cs2) == (sat_all(m, cs) && satisfies(m, s)), forall|m: Val| #[trigger] holds(m, a, cs) ==> satisfies(m, s) ensures same_models(a, cs, a, cs2) {
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by { assert(sat_all(m, cs2) == (sat_all(m, cs) && satisfies(m, s))); } }
/// marks do not matter
pub proof fn lem_marked_ready(a0: AssignStack, a: AssignStack, d: ClauseDB) requires conflicting(a0, d), marked(a, a0), unseen(a) ensures conflicting(a, d), same_models(a0, d.clause@, a, d.clause@), as_lasting(a0, d.clause@, a, d.clause@), forall|x: Lit| #[trigger] a.lit_ok(x) ==> a.lit_value(x) == a0.lit_value(x) && lev(a, x) == lev(a0, x) {
    let cs = d.clause@;
    lem_marked(a0, a, d);
    assert forall|x: Lit| #[trigger] a.lit_ok(x) implies a.lit_value(x) == a0.lit_value(x) && lev(a, x) == lev(a0, x) by { assert(a.var@[x.var() as int].assign == a0.var@[x.var() as int].assign); }
    assert(blockers_ok(a, d)) by { reveal(blockers_ok); assert forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() implies { let e = d.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(a0.lit_ok(e.1)); assert(a.lit_ok(e.1)); } }
    assert(upto(a)) by { assert forall|i: int| a.q_head <= i < a.trail@.len() implies lev(a, #[trigger] a.trail@[i]) == a.trail_lim@.len() by { assert(lev(a0, a0.trail@[i]) == a0.trail_lim@.len()); assert(a0.lit_ok(a0.trail@[i])); assert(a.lit_ok(a.trail@[i])); } }
    assert(same_root(a0, a)) by { assert forall|v: int| #![trigger a.var@[v]] 1 <= v <= a.nv() implies a.root_value(v) == a0.root_value(v) by { assert(a.var@[v].assign == a0.var@[v].assign); } }
    lem_same_root(a0, a, cs); lem_same_more(a0, a); lem_lasting_same(a0, cs, a);
    assert(a.levels_below(d.lbd_temp@.len() as int)) by { assert forall|v: int| 0 <= v < a.var@.len() implies (#[trigger] a.var@[v]).level < d.lbd_temp@.len() by { assert(a0.var@[v].level < d.lbd_temp@.len()); } }
}
/// nor do the counters of the clauses
pub proof fn lem_touched_ready(a: AssignStack, d: ClauseDB, d2: ClauseDB) requires conflicting(a, d), touched(d2, d), d2.wf() ensures conflicting(a, d2), same_models(a, d.clause@, a, d2.clause@), as_lasting(a, d.clause@, a, d2.clause@) {
    let cs = d.clause@; let cs2 = d2.clause@;
    lem_touched(a, d, d2);
    assert(from_ok(cs2)) by { assert forall|j: int| 0 <= j < cs2.len() implies (#[trigger] cs2[j]).search_from >= 2 by { assert(cs2[j].search_from == cs[j].search_from); assert(cs[j].search_from >= 2); } }
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by { lem_touched_holds(m, a, cs, cs2); }
    lem_lasting_clauses(a, cs, cs2);
    assert(blockers_ok(a, d2)) by { reveal(blockers_ok); 
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d2.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(has_cid(d.watch_cache@[w]@, e.0)); assert(watched(cs, w, e.0)); assert(d2.lits(e.0) == d.lits(e.0)); } }
}
"""

SPEC2 = r"""
/// variable v of the learnt clause: it has a reason that is a decision or a clause
pub proof fn lem_why(a: AssignStack, d: ClauseDB, v: int) requires ready(a, d), 1 <= v <= a.nv(), a.value(v).is_some(), a.var@[v].level > 0 ensures match a.var@[v].reason { AssignReason::Decision(_) => true, AssignReason::BinaryLink(k) => a.lit_ok(k), AssignReason::Implication(c) => live(d.clause@, c) && a.reads(d.lits(c)), AssignReason::None => false } {
    reveal(all_explained); lem_level_max(a, v); let i = choose|i: int| 0 <= i < a.trail@.len() && #[trigger] a.trail@[i].var() == v; assert(explained(a, d.clause@, i));
    match a.var@[v].reason { AssignReason::Implication(c) => { assert(a.reads(d.clause@[c.ord() as int].lits@)); } _ => {} }
}
pub proof fn lem_marked_more(a0: AssignStack, a: AssignStack, b: AssignStack, v: int) requires marked(a, a0), 0 <= v < a.var@.len(), b == (AssignStack { var: b.var, ..a }), b.var@ == a.var@.update(v, Var { flags: FlagVar { used: true, ..a.var@[v].flags }, ..a.var@[v] }) ensures marked(b, a0), unseen(a) ==> unseen(b) {
    assert forall|w: int| 0 <= w < a0.var@.len() implies #[trigger] b.var@[w] == (Var { flags: FlagVar { ca_seen: b.var@[w].flags.ca_seen, used: b.var@[w].flags.used, ..a0.var@[w].flags }, ..a0.var@[w] }) by { assert(a.var@[w] == (Var { flags: FlagVar { ca_seen: a.var@[w].flags.ca_seen, used: a.var@[w].flags.used, ..a0.var@[w].flags }, ..a0.var@[w] })); }
    if unseen(a) { assert forall|w: int| 0 <= w <= b.nv() implies !#[trigger] seen(b, w) by { assert(!seen(a, w)); } }
}
/// the unit learnt clause has been fixed at level 0
pub proof fn lem_unit_done(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, s: AssignStack, a2: AssignStack, d2: ClauseDB, l: Lit)
    requires conflicting(a, d), same_models(a0, d0.clause@, a, d.clause@), as_lasting(a0, d0.clause@, a, d.clause@), forall|m: Val| #[trigger] holds(m, a0, d0.clause@) ==> satisfies(m, seq![l]), d2 == (ClauseDB { certification_store: d2.certification_store, ..d }), d2.wf(), d.stamped(),
        a.lit_ok(l), fls(a, l), lev(a, l) == a.trail_lim@.len(), s.wf(), s.queue_ok(), a.cancels(&s, 0), s.asserts(&a2, l), a2.wf(), a2.queue_ok()
    ensures steady(a2, d2), same_models(a0, d0.clause@, a2, d2.clause@), as_lasting(a0, d0.clause@, a2, d2.clause@) {
    lem_cancel_ready(a, s, d, 0);
    let v = l.var() as int;
    assert(s.var@[v] == s.var@[v]); assert(s.value(v).is_none());
    assert(stepped(s, a2, l, AssignReason::None));
    lem_root_ready(s, a2, d, l, AssignReason::None);
    assert(same_root(a, s)) by { assert forall|w: int| #![trigger s.var@[w]] 1 <= w <= a.nv() implies s.root_value(w) == a.root_value(w) by { } }
    lem_same_root(a, s, d.clause@); lem_same_more(a, s); lem_lasting_same(a, d.clause@, s);
    assert(more_root(s, a2)) by { assert forall|m: Val| #[trigger] agrees0(m, a2) implies agrees0(m, s) by { assert forall|w: int| 1 <= w <= s.nv() && (#[trigger] s.var@[w]).assign.is_some() && s.var@[w].level == 0 implies m(w) == s.var@[w].assign.unwrap() by { assert(s.value(w).is_some()); assert(a2.var@[w] == s.var@[w]); } } }
    lem_lasting_same(s, d.clause@, a2);
    assert(s.root_value(v).is_none());
    assert forall|m: Val| #[trigger] holds(m, s, d.clause@) implies vtrue(m, l) by { assert(holds(m, a, d.clause@) == holds(m, s, d.clause@)); assert(holds(m, a0, d0.clause@) == holds(m, a, d.clause@)); assert(satisfies(m, seq![l])); }
    lem_root_unit(s, a2, d.clause@, l);
    lem_models_trans(a, d.clause@, s, d.clause@, a2, d.clause@); lem_models_trans(a0, d0.clause@, a, d.clause@, a2, d.clause@);
    assert(blockers_ok(a2, d2)) by { reveal(blockers_ok); }
    assert(a2.levels_below(d2.lbd_temp@.len() as int)) by { assert forall|w: int| 0 <= w < a2.var@.len() implies (#[trigger] a2.var@[w]).level < d2.lbd_temp@.len() by { assert(a.var@[w].level < d.lbd_temp@.len()); assert(s.var@[w].level == a.var@[w].level); } }
    assert(unseen(a2)) by { assert forall|w: int| 0 <= w <= a2.nv() implies !#[trigger] seen(a2, w) by { assert(!seen(a, w)); assert(s.var@[w].flags.ca_seen == a.var@[w].flags.ca_seen); } }
}
/// after the backtrack
pub open spec fn rewound(a: AssignStack, d: ClauseDB, b: AssignStack, lv: int) -> bool {
    &&& ready(b, d) && complete(b, d.clause@) && saved_just(b, d.clause@) && b.q_head == b.trail@.len() && kept_to(a, b, lv) && unseen(b) && b.levels_below(a.var@.len() as int) && same_models(a, d.clause@, b, d.clause@) && as_lasting(a, d.clause@, b, d.clause@)
}
pub proof fn lem_rewound(a: AssignStack, d: ClauseDB, b: AssignStack, lv: int) requires conflicting(a, d), a.cancels(&b, lv), 0 <= lv < a.trail_lim@.len(), b.wf(), b.queue_ok() ensures rewound(a, d, b, lv) {
    lem_cancel_ready(a, b, d, lv);
    assert(same_root(a, b)) by { assert forall|w: int| #![trigger b.var@[w]] 1 <= w <= a.nv() implies b.root_value(w) == a.root_value(w) by { } }
    lem_same_root(a, b, d.clause@); lem_same_more(a, b); lem_lasting_same(a, d.clause@, b);
    assert(b.levels_below(a.var@.len() as int)) by { assert forall|w: int| 0 <= w < b.var@.len() implies (#[trigger] b.var@[w]).level < a.var@.len() by { assert(a.var@[w].level < d.lbd_temp@.len()); } }
    assert(unseen(b)) by { assert forall|w: int| 0 <= w <= b.nv() implies !#[trigger] seen(b, w) by { assert(!seen(a, w)); assert(b.var@[w].flags.ca_seen == a.var@[w].flags.ca_seen); } }
}
pub proof fn lem_rewound_clear(a: AssignStack, d: ClauseDB, b: AssignStack, c: AssignStack, lv: int) requires rewound(a, d, b, lv), c.same_but_queue(&b), c.trail_saved@.len() == 0, c.heap_ok(), c.saved_ok(), c.queue_ok() ensures rewound(a, d, c, lv) {
    assert forall|v: int| 0 <= v < c.var@.len() implies #[trigger] c.same_var(&b, v) by { }
    b.lem_same(&c);
    lem_queue_ready(b, c, d); lem_no_saved(c, d.clause@);
    assert(same_root(b, c)) by { assert forall|w: int| #![trigger c.var@[w]] 1 <= w <= c.nv() implies c.root_value(w) == b.root_value(w) by { } }
    lem_same_root(b, c, d.clause@); lem_models_trans(a, d.clause@, b, d.clause@, c, d.clause@); lem_same_more(b, c); lem_lasting_same(b, d.clause@, c);
    assert(unseen(c)) by { assert forall|w: int| 0 <= w <= c.nv() implies !#[trigger] seen(c, w) by { assert(!seen(b, w)); } }
}
/// the clause has been learnt
pub proof fn lem_learnt_open(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, b: AssignStack, lv: int, d2: ClauseDB, c: ClauseId, s: Seq<Lit>)
    requires rewound(a, d, b, lv), same_models(a0, d0.clause@, a, d.clause@), as_lasting(a0, d0.clause@, a, d.clause@), forall|m: Val| #[trigger] holds(m, a0, d0.clause@) ==> satisfies(m, s), a.reads(s), s.len() >= 2, d2.added(&d, c, s), d2.joined(&d, c, s), d2.wf(), d2.stamped(), d2.lbd_temp@.len() == a.var@.len()
    ensures ready(b, d2), saved_just(b, d2.clause@), same_models(a0, d0.clause@, b, d2.clause@), as_lasting(a0, d0.clause@, b, d2.clause@),
        forall|e: ClauseId, p: int| #![trigger d2.clause@[e.ord() as int].lits@[p]] live(d2.clause@, e) && 0 <= p < 2 && e.ord() != c.ord() ==> fine(b, d2.clause@[e.ord() as int].lits@, d2.clause@[e.ord() as int].lits@[p]),
        !fls(b, s[0]) && !fls(b, s[1]) ==> steady(b, d2) {
    assert(b.reads(s)) by { assert forall|i: int| 0 <= i < s.len() implies b.lit_ok(#[trigger] s[i]) by { assert(a.lit_ok(s[i])); } }
    lem_added_ready(b, d, d2, c, s);
    lem_models_trans(a0, d0.clause@, a, d.clause@, b, d.clause@);
    assert forall|m: Val| #[trigger] holds(m, b, d.clause@) implies satisfies(m, s) by { assert(holds(m, a0, d0.clause@) == holds(m, b, d.clause@)); }
    assert forall|m: Val| sat_all(m, d.clause@) && #[trigger] agrees0(m, b) implies satisfies(m, s) by { assert(holds(m, b, d.clause@)); }
    lem_lasting_added(b, d, d2, c, s);
    lem_models_added(b, d.clause@, d2.clause@, s); lem_models_trans(a0, d0.clause@, b, d.clause@, b, d2.clause@);
    if !fls(b, s[0]) && !fls(b, s[1]) { assert forall|p: int| 0 <= p < 2 implies !fls(b, #[trigger] d2.lits(c)[p]) by { } lem_added_open(b, d2, c); }
}
pub proof fn lem_learnt_unit(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, b: AssignStack, lv: int, d2: ClauseDB, c: ClauseId, s: Seq<Lit>, b2: AssignStack, r: AssignReason)
    requires rewound(a, d, b, lv), same_models(a0, d0.clause@, a, d.clause@), as_lasting(a0, d0.clause@, a, d.clause@), forall|m: Val| #[trigger] holds(m, a0, d0.clause@) ==> satisfies(m, s), a.reads(s), s.len() >= 2, d2.added(&d, c, s), d2.joined(&d, c, s), d2.wf(), d2.stamped(), d2.lbd_temp@.len() == a.var@.len(),
        lv > 0, stepped(b, b2, s[0], r), false_but(b, s, 0), lev(b, s[1]) == lv, r == AssignReason::Implication(c) || s.len() == 2 && r == AssignReason::BinaryLink(s[1].neg())
    ensures steady(b2, d2), same_models(a0, d0.clause@, b2, d2.clause@), as_lasting(a0, d0.clause@, b2, d2.clause@) {
    lem_learnt_open(a0, d0, a, d, b, lv, d2, c, s);
    lem_added_unit(b, b2, d2, c, r);
    let v = s[0].var() as int;
    assert(same_root(b, b2)) by { assert forall|w: int| #![trigger b2.var@[w]] 1 <= w <= b.nv() implies b2.root_value(w) == b.root_value(w) by { if w != v { assert(b2.var@[w] == b.var@[w]); } } }
    lem_same_root(b, b2, d2.clause@); lem_same_more(b, b2); lem_lasting_same(b, d2.clause@, b2); lem_models_trans(a0, d0.clause@, b, d2.clause@, b2, d2.clause@);
    assert(b2.levels_below(d2.lbd_temp@.len() as int)) by { b2.lem_levels(); assert forall|w: int| 0 <= w < b2.var@.len() implies (#[trigger] b2.var@[w]).level < d2.lbd_temp@.len() by { if w != v { assert(b.var@[w].level < a.var@.len()); } } }
    assert(unseen(b2)) by { assert forall|w: int| 0 <= w <= b2.nv() implies !#[trigger] seen(b2, w) by { assert(!seen(b, w)); if w != v { assert(b2.var@[w] == b.var@[w]); } } }
}
/// the learnt clause after the backtrack to its level: the first literal open, the others false
pub proof fn lem_after_back(a: AssignStack, b: AssignStack, s: Seq<Lit>, r: int, lv: int) requires asserting(a, s, r), s.len() >= 2, kept_to(a, b, lv), lv == r || lv == r - 1
    ensures b.value(s[0].var() as int).is_none(), lv == r ==> false_but(b, s, 0) && lev(b, s[1]) == r, lv < r ==> b.value(s[1].var() as int).is_none() {
    assert(a.lit_ok(s[0]) && fls(a, s[0])); assert(a.lit_ok(s[1]) && fls(a, s[1])); assert(b.var@[s[0].var() as int] == b.var@[s[0].var() as int]); assert(b.var@[s[1].var() as int] == b.var@[s[1].var() as int]);
    if lv == r { assert forall|j: int| 0 <= j < s.len() && j != 0 implies fls(b, #[trigger] s[j]) by { assert(a.lit_ok(s[j]) && fls(a, s[j])); assert(0 < lev(a, s[j]) <= r); assert(b.var@[s[j].var() as int] == b.var@[s[j].var() as int]); } }
}
/// the learnt clause is a new one: the analysis would not have returned a stored pair
pub proof fn lem_not_known(a: AssignStack, d: ClauseDB, s: Seq<Lit>, r: int, c: ClauseId) requires conflicting(a, d), asserting(a, s, r), live(d.clause@, c), same_pair(d.lits(c), s) ensures false {
    reveal(complete_below); let t = d.lits(c); let p = if t[0] == s[1] { 0int } else { 1int }; let cs = d.clause@;
    assert(a.lit_ok(s[1]) && fls(a, s[1]) && lev(a, s[1]) == r); assert(a.lit_ok(s[0]) && fls(a, s[0]));
    assert(t[p] == s[1]); assert(fls(a, cs[c.ord() as int].lits@[p]));
    assert(covered(a, t, t[p])); let y = choose|y: Lit| #[trigger] t.contains(y) && tru(a, y) && lev(a, y) <= lev(a, t[p]); assert(y == s[0] || y == s[1]);
}
/// the counter of use of a clause does not matter
pub proof fn lem_used_steady(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId) requires steady(a, d), c.ord() < d.clause@.len(), d2 == (ClauseDB { clause: d2.clause, ..d }), d2.clause@ == d.clause@.update(c.ord() as int, d2.clause@[c.ord() as int]), ({ let k = c.ord() as int; d2.clause@[k] == (Clause { used: d2.clause@[k].used, ..d.clause@[k] }) })
    ensures steady(a, d2), same_models(a, d.clause@, a, d2.clause@), as_lasting(a, d.clause@, a, d2.clause@) {
    let cs = d.clause@; let cs2 = d2.clause@;
    lem_counted(a, d, d2);
    assert(complete(a, cs2)) by { reveal(complete); assert forall|e: ClauseId, p: int| #![trigger cs2[e.ord() as int].lits@[p]] live(cs2, e) && 0 <= p < 2 implies fine(a, cs2[e.ord() as int].lits@, cs2[e.ord() as int].lits@[p]) by { assert(live(cs, e)); assert(cs2[e.ord() as int].lits@ == cs[e.ord() as int].lits@); assert(fine(a, cs[e.ord() as int].lits@, cs[e.ord() as int].lits@[p])); } }
    assert(same_clauses(cs, cs2)); lem_lasting_clauses(a, cs, cs2);
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by { lem_touched_holds(m, a, cs, cs2); }
}
pub proof fn lem_learnt_legal(a: AssignStack, d: ClauseDB, s: Seq<Lit>, r: int) requires a.wf(), asserting(a, s, r), s.len() >= 2, sized(a, d) ensures legal(s, d.nl()) {
    assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i]).var() <= a.nv() && s[i].ord() < d.nl() by { assert(a.lit_ok(s[i])); }
    lem_few_vars(s, 0, a.nv());
}
pub proof fn lem_asserting_marked(a0: AssignStack, a: AssignStack, s: Seq<Lit>, r: int) requires asserting(a0, s, r), marked(a, a0), forall|x: Lit| #[trigger] a.lit_ok(x) ==> a.lit_value(x) == a0.lit_value(x) && lev(a, x) == lev(a0, x) ensures asserting(a, s, r), a.reads(s) {
    assert forall|i: int| 0 <= i < s.len() implies a.lit_ok(#[trigger] s[i]) && fls(a, s[i]) && (i > 0 ==> 0 < lev(a, s[i]) <= r) by { assert(a0.lit_ok(s[i])); assert(a.lit_ok(s[i])); }
}
#[verifier::external_body] pub fn verif_sat_add(a: u16, b: u16) -> (r: u16) { unimplemented!() }
pub fn verif_max(a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
"""


def unit():
    u = Unit("step")
    u_cdb.types(u)
    u.text(u_prop.DEFS)
    u.lemmas(u_prop.LEM)
    i, j = u_prop.SPEC2.index("pub proof fn lem_set_refl"), u_prop.SPEC2.index("pub proof fn lem_covered_set")
    u.lemmas(u_prop.SPEC2[i:j])
    i = u_prop.SPEC2.index("proof fn lem_not_pending")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("// ---- C10", i)])
    i = u_prop.SPEC2.index("// ---- all that holds while the literal p")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("pub proof fn lem_go_step", i)])
    i = u_prop.SPEC2.index("pub proof fn lem_counted")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("\n}\n", i) + 3])
    u.struct("state", "State", keep=["new_learnt"])
    u.lemmas(u_learn.SPEC)
    i = u_learn.SPEC2.index("/// what conflict analysis returns")
    u.text(u_learn.SPEC2[i:u_learn.SPEC2.index("#[verifier", i)])
    i = u_learn.SPEC2.index("pub proof fn lem_marked(")
    u.lemmas(u_learn.SPEC2[i:u_learn.SPEC2.index("/// what conflict analysis returns", i)])
    u.text(LAST)
    u.text(SPEC)
    u.text(SPEC2)
    A, D, L = u_assign.unit(), u_cdb.unit(), u_learn.unit()
    u.uses(A, ["AssignStack::decision_level", "AssignStack::cancel_until", "AssignStack::assign_by_implication", "AssignStack::assign_at_root_level", "AssignStack::clear_saved_trail", "AssignStack::assigned"])
    u.uses(D, ["ClauseDB::at", "ClauseDB::at_mut", "AssignStack::level", "ClauseDB::new_clause", "ClauseDB::certificate_add_assertion"])
    u.uses(L, ["AssignStack::reason", "AssignStack::root_level", "AssignStack::reward_at_analysis", "conflict_analyze"])
    f = u.fn
    S = "solver::conflict"
    NTH = "for verif_k in 0 .. cdb . at ( $c ) . lits . len ( ) { let l = & cdb . at ( $c ) . lits [ verif_k ] ;"
    f(S, None, "handle_conflict", nloops=3, subst=CDBSIG + [
        ("cdb [ cid ] . iter ( ) . all ( | l | $$e )", "{ let mut verif_b = true ; for verif_k in 0 .. cdb . at ( cid ) . lits . len ( ) { let l = & cdb . at ( cid ) . lits [ verif_k ] ; if ! ( $$e ) { verif_b = false ; } } verif_b }", 1),
        ("conflict_analyze ( $$a ) . max ( $$b )", "verif_max ( conflict_analyze ( $$a ) , $$b )", 1),
        ("new_learnt . iter ( ) . map ( | l | l . vi ( ) ) . collect :: < Vec < VarId >> ( )", "verif_any :: < Vec < VarId >> ( )", 1),
        ("for lit in new_learnt . iter ( ) {", "for verif_k in 0 .. new_learnt . len ( ) { let lit = & new_learnt [ verif_k ] ;", 1),
        ("for l in cdb [ r ] . iter ( ) {", "for verif_k in 0 .. cdb . at ( r ) . lits . len ( ) { let l = & cdb . at ( r ) . lits [ verif_k ] ;", 1),
        ("bumped . contains ( & vi )", "verif_any :: < bool > ( )"),
        ("if false && $$c { Some ( true ) }", "if false { Some ( true ) }", 1), ("new_learnt . len ( ) > 2 && $$c { Some ( false ) }", "new_learnt . len ( ) > 2 && verif_any :: < bool > ( ) { Some ( false ) }", 1),
        ("bt_drift . is_none_or ( | up1 | up1 && $$e )", "( match bt_drift { None => true , Some ( up1 ) => up1 && verif_any :: < bool > ( ) } )", 2),
        ("cdb [ cid ] . used = $$e ;", "let verif_v = verif_sat_add ( cdb . at ( cid ) . used , 1 ) ; cdb . at_mut ( cid ) . used = verif_v ;")] + AT,
      drop=[("asg . handle ( SolverEvent :: Conflict ) ;", "", "counters of the activity heuristic"), ("state . $m . update ( $$x ) ;", "", "moving averages"), ("state . restart . handle ( $$x ) ;", "", "restart heuristic"), ("cdb . handle ( SolverEvent :: Assert ( vi ) ) ;", "", "moving average")],
      spec="""requires conflicting(*old(asg), *old(cdb)), conflict_ok(*old(asg), old(cdb).clause@, cc.0, cc.1), old(asg).lit_ok(cc.0), room(*old(cdb), 3), old(cdb).clause@.len() < 0x7fff_ffff
    ensures r.is_ok(), steady(*final(asg), *final(cdb)), same_models(*old(asg), old(cdb).clause@, *final(asg), final(cdb).clause@), as_lasting(*old(asg), old(cdb).clause@, *final(asg), final(cdb).clause@)""",
      pre="let ghost a0 = *asg; let ghost d0 = *cdb; let ghost cs0 = cdb.clause@; proof { lem_at_top(a0, d0, cc.0, cc.1); }",
      loops={
        0: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": "invariant it.iter.end == cs0[cid.ord() as int].lits@.len(), it.index() > 1 ==> !verif_b,", "top": "proof { lem_lits(a0, d0, cid, verif_k as int); if verif_k == 1 { assert(lev(a0, rest_lit(cs0, cc.1, 0)) == a0.trail_lim@.len()); } }"},
        1: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": "invariant it.iter.end == s.len(), marked(*asg, a1), unseen(*asg),", "top": "let ghost am = *asg; proof { assert(a1.lit_ok(s[verif_k as int]) && fls(a1, s[verif_k as int])); lem_why(a1, d1, s[verif_k as int].var() as int); }"},
        2: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": "invariant it.iter.end == cdb.clause@[r.ord() as int].lits@.len(), marked(*asg, a1), unseen(*asg),", "top": "let ghost an = *asg;"},
      }, ghost=[
        ("before", "let new_learnt =", """let ghost a1 = *asg; let ghost d1 = *cdb; let ghost s = state.new_learnt@; let ghost lr = assign_level as int; proof {
            lem_marked_ready(a0, a1, d0); lem_touched_ready(a1, d0, d1); lem_asserting_marked(a0, a1, s, lr); lem_models_trans(a0, d0.clause@, a1, d0.clause@, a1, d1.clause@); }"""),
        ("after_stmt", "asg . reward_at_analysis ( lit . vi ( ) )", "let ghost ar = *asg; proof { lem_marked_more(a1, am, *asg, s[verif_k as int].var() as int); lem_marked_ready(a1, *asg, d1); }"),
        ("after_stmt", "asg . reward_at_analysis ( vi )", "proof { lem_marked_more(a1, ar, *asg, vi as int); }", 0),
        ("after_stmt", "asg . reward_at_analysis ( vi )", "proof { lem_marked_more(a1, an, *asg, vi as int); }", 1),
        ("before", "let vi = l0 . vi ( ) ;", """proof { assert(s =~= seq![l0]); let s2 = choose|s2: AssignStack| a1.cancels(&s2, 0) && #[trigger] s2.asserts(asg, l0) && s2.wf() && (a1.queue_ok() ==> s2.queue_ok()); lem_unit_done(a0, d0, a1, d1, s2, *asg, *cdb, l0); }"""),
        ("before", "let bt_drift", "let ghost a2 = *asg; let ghost mut b0 = *asg; proof { lem_marked_ready(a1, a2, d1); lem_asserting_marked(a1, a2, s, lr); lem_models_trans(a0, d0.clause@, a1, d1.clause@, a2, d1.clause@); assert(a2.lit_ok(s[1]) && fls(a2, s[1])); assert(lr > 0); }"),
        ("after_stmt", "asg . cancel_until ( assign_level - 1 )", "proof { lem_rewound(a2, d1, *asg, lr - 1); b0 = *asg; }"),
        ("after_stmt", "asg . clear_saved_trail ( )", "proof { if bt_drift == Some(false) { assert forall|v: int| #[trigger] asg.open_var(v) implies asg.kept(v) by { assert(b0.open_var(v)); assert(b0.kept(v)); } assert(asg.saved_ok()); lem_rewound_clear(a2, d1, b0, *asg, lr - 1); } }"),
        ("before", "let rank", """let ghost b = *asg; let ghost lv = if bt_drift.is_some() { lr - 1 } else { lr }; proof {
            if bt_drift.is_none() { lem_rewound(a2, d1, b, lr); } lem_after_back(a2, b, s, lr, lv); lem_learnt_legal(a2, d1, s, lr); lem_asserting_marked(a0, a2, s, lr);
            assert(b.reads(s)) by { assert forall|i: int| 0 <= i < s.len() implies b.lit_ok(#[trigger] s[i]) by { assert(a2.lit_ok(s[i])); } } }"""),
        ("before", "if bt_drift . is_none ( )", "let ghost d2 = *cdb; proof { lem_learnt_open(a0, d0, a2, d1, b, lv, d2, cid, s); }"),
        ("before", "if ( match bt_drift", "let ghost d2 = *cdb; proof { lem_learnt_open(a0, d0, a2, d1, b, lv, d2, cid, s); }", 0),
        ("before", "rank = 1 ;", "proof { lem_not_known(a2, d1, s, lr, cid); }", 1),
        ("before", "let verif_v", "let ghost b2 = *asg; let ghost d3 = *cdb; proof { lem_learnt_unit(a0, d0, a2, d1, b, lv, d2, cid, s, b2, AssignReason::BinaryLink(l1.neg())); }", 0),
        ("before", "let verif_v", "let ghost b2 = *asg; let ghost d3 = *cdb; proof { lem_learnt_unit(a0, d0, a2, d1, b, lv, d2, cid, s, b2, AssignReason::Implication(cid)); }", 1),
        ("after_stmt", "cdb . at_mut ( cid ) . used =", "proof { lem_used_steady(b2, d3, *cdb, cid); lem_models_trans(a0, d0.clause@, b2, d3.clause@, b2, cdb.clause@); }", 0),
        ("after_stmt", "cdb . at_mut ( cid ) . used =", "proof { lem_used_steady(b2, d3, *cdb, cid); lem_models_trans(a0, d0.clause@, b2, d3.clause@, b2, cdb.clause@); }", 1),
        ("before", "match asg . assigned ( l0 )", "proof { assert(a1.lit_ok(s[0]) && fls(a1, s[0])); }"),
      ])
    return u
