"""unit propagation: sound, complete, justified (C10)"""
import u_assign
import u_cdb
from clause import AT, CDBSIG
from unit import Unit

RLIMIT = 150

DEFS = r"""
// ---- what propagation is about
pub open spec fn sat_all(m: Val, cs: Seq<Clause>) -> bool { forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() ==> satisfies(m, cs[j].lits@) }
pub open spec fn same_set(s: Seq<Lit>, t: Seq<Lit>) -> bool { s.len() == t.len() && forall|l: Lit| #[trigger] s.contains(l) == t.contains(l) }
/// the same clauses, up to the order of their literals
#[verifier::opaque]
pub open spec fn same_sets(cs: Seq<Clause>, cs2: Seq<Clause>) -> bool { cs2.len() == cs.len() && forall|j: int| 0 <= j < cs.len() ==> same_set(cs[j].lits@, (#[trigger] cs2[j]).lits@) && cs2[j].flags == cs[j].flags }
/// there is a two-literal clause with the literals x and y
pub open spec fn paired(cs: Seq<Clause>, x: Lit, y: Lit) -> bool { exists|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == x && t[1] == y || t[0] == y && t[1] == x } }
pub open spec fn lev(a: AssignStack, l: Lit) -> int { a.var@[l.var() as int].level as int }
pub open spec fn tru(a: AssignStack, l: Lit) -> bool { a.lit_value(l) == Some(true) }
pub open spec fn fls(a: AssignStack, l: Lit) -> bool { a.lit_value(l) == Some(false) }
/// all literals of s but number k are false
pub open spec fn false_but(a: AssignStack, s: Seq<Lit>, k: int) -> bool { forall|j: int| 0 <= j < s.len() && j != k ==> fls(a, #[trigger] s[j]) }
/// r tells why l must be true: a clause that contains it and is otherwise false
pub open spec fn reason_ok(a: AssignStack, cs: Seq<Clause>, l: Lit, r: AssignReason) -> bool {
    match r {
        AssignReason::BinaryLink(k) => a.lit_ok(k) && tru(a, k) && paired(cs, k.neg(), l),
        AssignReason::Implication(c) => live(cs, c) && cs[c.ord() as int].lits@.len() > 0 && cs[c.ord() as int].lits@[0] == l && false_but(a, cs[c.ord() as int].lits@, 0),
        _ => false,
    }
}
/// r is a clause that contains l (as its first literal) and is false
pub open spec fn conflict_ok(a: AssignStack, cs: Seq<Clause>, l: Lit, r: AssignReason) -> bool {
    match r {
        AssignReason::BinaryLink(k) => a.lit_ok(k) && tru(a, k) && fls(a, l) && paired(cs, k.neg(), l),
        AssignReason::Implication(c) => live(cs, c) && cs[c.ord() as int].lits@.len() > 0 && cs[c.ord() as int].lits@[0] == l && false_but(a, cs[c.ord() as int].lits@, -1),
        _ => false,
    }
}
/// v is assigned by an entry of the trail not before number i
pub open spec fn after(a: AssignStack, i: int, v: int) -> bool { part(a.trail@, i, a.trail@.len() as int, v) }
/// entry i of the trail is the decision of its level, or the reason recorded for it is a clause otherwise false through earlier assignments
pub open spec fn explained(a: AssignStack, cs: Seq<Clause>, i: int) -> bool {
    let l = a.trail@[i];
    match a.var@[l.var() as int].reason {
        AssignReason::BinaryLink(k) => a.lit_ok(k) && tru(a, k) && !after(a, i, k.var() as int) && paired(cs, k.neg(), l),
        AssignReason::Implication(c) => live(cs, c) && cs[c.ord() as int].lits@.len() > 0 && cs[c.ord() as int].lits@[0] == l && forall|j: int| 1 <= j < cs[c.ord() as int].lits@.len() ==> fls(a, #[trigger] cs[c.ord() as int].lits@[j]) && !after(a, i, cs[c.ord() as int].lits@[j].var() as int),
        AssignReason::Decision(_) => lev(a, l) > 0 && a.trail_lim@[lev(a, l) - 1] == i,
        AssignReason::None => false,
    }
}
#[verifier::opaque]
pub open spec fn all_explained(a: AssignStack, cs: Seq<Clause>) -> bool { forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 ==> #[trigger] explained(a, cs, i) }
pub open spec fn agrees(m: Val, a: AssignStack) -> bool { forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() ==> m(v) == a.var@[v].assign.unwrap() }
/// what is assigned in a follows from the clauses and what is assigned in a0
#[verifier::opaque]
pub open spec fn follows(a0: AssignStack, cs: Seq<Clause>, a: AssignStack) -> bool { forall|m: Val| sat_all(m, cs) && #[trigger] agrees(m, a0) ==> agrees(m, a) }
/// a is a0 with more assigned, at its current level
pub open spec fn extended(a0: AssignStack, a: AssignStack) -> bool {
    &&& a.trail_lim@ == a0.trail_lim@ && a.root_level == a0.root_level && a.var@.len() == a0.var@.len() && a.num_vars == a0.num_vars && a.eliminated == a0.eliminated
    &&& a0.trail@.len() <= a.trail@.len() && a.trail@.take(a0.trail@.len() as int) == a0.trail@
    &&& forall|v: int| 1 <= v <= a0.nv() && a0.var@[v].assign.is_some() ==> (#[trigger] a.var@[v]).assign == a0.var@[v].assign && a.var@[v].level == a0.var@[v].level && a.var@[v].reason == a0.var@[v].reason
    &&& forall|v: int| 1 <= v <= a0.nv() && a0.var@[v].assign.is_none() && (#[trigger] a.var@[v]).assign.is_some() ==> a.var@[v].level == a.trail_lim@.len()
    &&& forall|v: int| 0 <= v < a0.var@.len() ==> (#[trigger] a.var@[v]).flags.ca_seen == a0.var@[v].flags.ca_seen && a.var@[v].flags.eliminated == a0.var@[v].flags.eliminated && (a.var@[v].level == a0.var@[v].level || a.var@[v].level == a.trail_lim@.len())
    &&& forall|v: int| 1 <= v <= a0.nv() && a0.value(v).is_none() && (#[trigger] a.var@[v]).assign.is_some() ==> after(a, a0.trail@.len() as int, v)
}
// ---- completeness
/// v's assignment has not been propagated yet
pub open spec fn pend(a: AssignStack, v: int) -> bool { part(a.trail@, a.q_head as int, a.trail@.len() as int, v) }
/// s has a true literal, assigned not later than l
pub open spec fn covered(a: AssignStack, s: Seq<Lit>, l: Lit) -> bool { exists|x: Lit| #[trigger] s.contains(x) && tru(a, x) && lev(a, x) <= lev(a, l) }
pub open spec fn fine(a: AssignStack, s: Seq<Lit>, l: Lit) -> bool { fls(a, l) && !pend(a, l.var() as int) ==> covered(a, s, l) }
/// every false and propagated watched literal is in a clause with a true literal (C10)
#[verifier::opaque]
pub open spec fn complete(a: AssignStack, cs: Seq<Clause>) -> bool { forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 ==> fine(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) }
/// the same for the literals of lower levels only: what is left after a conflict
#[verifier::opaque]
pub open spec fn complete_below(a: AssignStack, cs: Seq<Clause>) -> bool { forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 && fls(a, cs[c.ord() as int].lits@[p]) && lev(a, cs[c.ord() as int].lits@[p]) < a.trail_lim@.len() ==> covered(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) }
pub open spec fn later(s: Seq<(ClauseId, Lit)>, n: int, c: ClauseId) -> bool { exists|j: int| n <= j < s.len() && (#[trigger] s[j]).0 == c }
pub open spec fn exempt(s: Seq<(ClauseId, Lit)>, n: int, x: int, c: ClauseId) -> bool { n < 0 || c.ord() == x || later(s, n, c) }
/// while fl (false) is being propagated: the clauses from number n of its watch list on, and clause x, are still to be looked at (n < 0: all)
#[verifier::opaque]
pub open spec fn winv(a: AssignStack, d: ClauseDB, fl: Lit, n: int, x: int) -> bool {
    forall|c: ClauseId, p: int| #![trigger d.clause@[c.ord() as int].lits@[p]] live(d.clause@, c) && 0 <= p < 2 ==> fine(a, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[p]) || d.clause@[c.ord() as int].lits@[p] == fl && exempt(d.watch_cache@[fl.neg().ord() as int]@, n, x, c)
}
/// what is on the trail and not propagated yet has been assigned at the current level
pub open spec fn upto(a: AssignStack) -> bool { forall|i: int| a.q_head <= i < a.trail@.len() ==> lev(a, #[trigger] a.trail@[i]) == a.trail_lim@.len() }
/// the literal kept next to a clause in a watch list is in the clause, or false for good
#[verifier::opaque]
pub open spec fn blockers_ok(a: AssignStack, d: ClauseDB) -> bool {
    forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() ==> { let e = d.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) }
}
pub open spec fn from_ok(cs: Seq<Clause>) -> bool { forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).search_from >= 2 }
pub open spec fn sized(a: AssignStack, d: ClauseDB) -> bool { d.nl() == 2 * a.var@.len() && d.readable(a) }
pub open spec fn ready(a: AssignStack, d: ClauseDB) -> bool { a.wf() && a.queue_ok() && d.wf() && sized(a, d) && blockers_ok(a, d) && from_ok(d.clause@) && all_explained(a, d.clause@) && upto(a) }
// ---- the saved trail
pub open spec fn avail(a: AssignStack, i: int, k: Lit) -> bool { tru(a, k) || exists|j: int| i < j < a.trail_saved@.len() && #[trigger] a.trail_saved@[j] == k }
pub open spec fn saved_at(a: AssignStack, cs: Seq<Clause>, i: int) -> bool {
    let l = a.trail_saved@[i];
    match a.var@[l.var() as int].reason_saved {
        AssignReason::BinaryLink(k) => a.lit_ok(k) && avail(a, i, k) && paired(cs, k.neg(), l),
        AssignReason::Implication(c) => live(cs, c) && { let s = cs[c.ord() as int].lits@; s.contains(l) && (s[0] == l || fls(a, l)) && forall|x: Lit| #[trigger] s.contains(x) && x != l ==> avail(a, i, x.neg()) },
        _ => true,
    }
}
/// the reasons saved with the saved trail still hold: their other literals are false, or will be once the entries before have been assigned again
#[verifier::opaque]
pub open spec fn saved_just(a: AssignStack, cs: Seq<Clause>) -> bool { forall|i: int| 0 <= i < a.trail_saved@.len() ==> #[trigger] saved_at(a, cs, i) }
// ---- the literals of the clauses
pub proof fn lem_lits(a: AssignStack, d: ClauseDB, c: ClauseId, k: int) requires d.readable(a), d.index_ok(), live(d.clause@, c), 0 <= k < d.lits(c).len() ensures a.lit_ok(d.lits(c)[k]), d.lits(c)[k].ord() < d.nl(), d.lits(c)[k].neg().ord() < d.nl(), d.lits(c).len() >= 2, d.lits(c).contains(d.lits(c)[k]) {
    assert(a.reads(d.clause@[c.ord() as int].lits@)); assert(legal(d.lits(c), d.nl())); lem_neg_below(d.lits(c)[k], d.nl());
}
pub proof fn lem_has(a: AssignStack, d: ClauseDB, c: ClauseId, x: Lit) requires d.readable(a), d.index_ok(), live(d.clause@, c), d.lits(c).contains(x) ensures a.lit_ok(x) {
    let k = choose|k: int| 0 <= k < d.lits(c).len() && d.lits(c)[k] == x; lem_lits(a, d, c, k); }
pub proof fn lem_distinct(d: ClauseDB, c: ClauseId, j: int, k: int) requires d.index_ok(), live(d.clause@, c), 0 <= j < d.lits(c).len(), 0 <= k < d.lits(c).len(), j != k ensures d.lits(c)[j] != d.lits(c)[k], d.lits(c)[j].var() != d.lits(c)[k].var() {
    assert(legal(d.lits(c), d.nl())); if j < k { assert(d.lits(c)[j].var() != d.lits(c)[k].var()); } else { assert(d.lits(c)[k].var() != d.lits(c)[j].var()); } }
"""

LEM = r"""
// ---- one assignment more
pub open spec fn stepped(a: AssignStack, a2: AssignStack, l: Lit, r: AssignReason) -> bool {
    &&& a.wf() && a2.wf() && a2.queue_ok() && a.lit_ok(l) && a.value(l.var() as int).is_none() && a.assigned_to(&a2, l) && a2.trail_lim@ == a.trail_lim@ && a2.var@[l.var() as int].reason_saved == a.var@[l.var() as int].reason_saved
    &&& a.trail_lim@.len() > 0 ==> a2.var@[l.var() as int].reason == r
}
pub proof fn lem_step_val(a: AssignStack, a2: AssignStack, l: Lit, r: AssignReason, x: Lit) requires stepped(a, a2, l, r)
    ensures a.value(x.var() as int).is_some() && a.lit_ok(x) ==> a2.lit_value(x) == a.lit_value(x) && lev(a2, x) == lev(a, x), tru(a, x) && a.lit_ok(x) ==> tru(a2, x), fls(a, x) && a.lit_ok(x) ==> fls(a2, x) { }
pub proof fn lem_step_ready(a0: AssignStack, a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), stepped(a, a2, l, r), reason_ok(a, d.clause@, l, r), extended(a0, a), follows(a0, d.clause@, a)
    ensures ready(a2, d), extended(a0, a2), follows(a0, d.clause@, a2), pend(a2, l.var() as int), tru(a2, l), lev(a2, l) == a2.trail_lim@.len() {
    let cs = d.clause@; let n = a.trail@.len() as int;
    assert(a2.trail@[n] == l);
    a2.lem_levels();
    assert forall|i: int| 0 <= i < n implies #[trigger] a2.trail@[i] == a.trail@[i] && a.lit_ok(a.trail@[i]) && a.trail@[i].var() != l.var() by { assert(a.lit_ok(a.trail@[i])); assert(a.value(a.trail@[i].var() as int).is_some()); }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(all_explained(a2, cs)) by {
        reveal(all_explained);
        assert forall|i: int| 0 <= i < a2.trail@.len() && lev(a2, a2.trail@[i]) > 0 implies #[trigger] explained(a2, cs, i) by {
            if i < n { assert(a2.trail@[i] == a.trail@[i]); assert(explained(a, cs, i)); lem_step_expl(a, a2, d, l, r, i); } else { lem_step_new(a, a2, d, l, r); }
        }
    }
    assert(a2.trail@.take(a0.trail@.len() as int) =~= a0.trail@) by { assert(a.trail@.take(a0.trail@.len() as int) == a0.trail@); assert forall|i: int| 0 <= i < a0.trail@.len() implies a2.trail@[i] == a0.trail@[i] by { assert(a.trail@.take(a0.trail@.len() as int)[i] == a0.trail@[i]); } }
    assert(extended(a0, a2)) by { assert forall|v: int| 1 <= v <= a0.nv() && a0.var@[v].assign.is_some() implies (#[trigger] a2.var@[v]).assign == a0.var@[v].assign && a2.var@[v].level == a0.var@[v].level && a2.var@[v].reason == a0.var@[v].reason by { assert(a.var@[v].assign == a0.var@[v].assign); }
        assert forall|v: int| 1 <= v <= a0.nv() && a0.var@[v].assign.is_none() && (#[trigger] a2.var@[v]).assign.is_some() implies a2.var@[v].level == a2.trail_lim@.len() by { if v != l.var() { assert(a.var@[v] == a2.var@[v]); } }
        assert forall|v: int| 0 <= v < a0.var@.len() implies (#[trigger] a2.var@[v]).flags.ca_seen == a0.var@[v].flags.ca_seen && a2.var@[v].flags.eliminated == a0.var@[v].flags.eliminated && (a2.var@[v].level == a0.var@[v].level || a2.var@[v].level == a2.trail_lim@.len()) by { assert(a.var@[v].flags.ca_seen == a0.var@[v].flags.ca_seen); if v != l.var() { assert(a.var@[v] == a2.var@[v]); } }
        assert forall|v: int| 1 <= v <= a0.nv() && a0.value(v).is_none() && (#[trigger] a2.var@[v]).assign.is_some() implies after(a2, a0.trail@.len() as int, v) by { lem_part_push(a.trail@, l, a0.trail@.len() as int, v); if v != l.var() { assert(a.var@[v] == a2.var@[v]); assert(after(a, a0.trail@.len() as int, v)); } } }
    lem_step_follows(a0, a, a2, d, l, r);
}
pub proof fn lem_after_same(a: AssignStack, a2: AssignStack, l: Lit, r: AssignReason, i: int, v: int) requires stepped(a, a2, l, r), v != l.var(), 0 <= i ensures after(a2, i, v) == after(a, i, v), pend(a2, v) == pend(a, v) {
    lem_part_push(a.trail@, l, i, v); lem_part_push(a.trail@, l, a.q_head as int, v);
}
pub proof fn lem_part_push(t: Seq<Lit>, l: Lit, q: int, v: int) requires 0 <= q ensures v != l.var() ==> part(t.push(l), q, t.len() as int + 1, v) == part(t, q, t.len() as int, v), q <= t.len() ==> part(t.push(l), q, t.len() as int + 1, l.var() as int) {
    let u = t.push(l); let n = t.len() as int;
    assert(u[n] == l);
    if v != l.var() {
        if part(u, q, n + 1, v) { let j = choose|j: int| q <= j < n + 1 && (#[trigger] u[j]).var() == v; assert(j < n); assert(u[j] == t[j]); assert(t[j].var() == v); }
        if part(t, q, n, v) { let j = choose|j: int| q <= j < n && (#[trigger] t[j]).var() == v; assert(u[j] == t[j]); assert(u[j].var() == v); }
    }
}
/// an entry explained before is still explained
proof fn lem_step_expl(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason, i: int)
    requires ready(a, d), stepped(a, a2, l, r), 0 <= i < a.trail@.len(), explained(a, d.clause@, i), a2.trail@[i] == a.trail@[i], a.trail@[i].var() != l.var()
    ensures explained(a2, d.clause@, i) {
    match a.var@[a.trail@[i].var() as int].reason {
        AssignReason::BinaryLink(k) => { lem_step_val(a, a2, l, r, k); lem_after_same(a, a2, l, r, i, k.var() as int); }
        AssignReason::Implication(c) => {
            let s = d.clause@[c.ord() as int].lits@;
            assert forall|j: int| 1 <= j < s.len() implies fls(a2, #[trigger] s[j]) && !after(a2, i, s[j].var() as int) by { lem_lits(a, d, c, j); lem_step_val(a, a2, l, r, s[j]); lem_after_same(a, a2, l, r, i, s[j].var() as int); }
        }
        _ => {}
    }
}
/// so is the new one
proof fn lem_step_new(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), stepped(a, a2, l, r), reason_ok(a, d.clause@, l, r), a.trail_lim@.len() > 0
    ensures explained(a2, d.clause@, a.trail@.len() as int) {
    let n = a.trail@.len() as int;
    assert(a2.trail@[n] == l);
    assert forall|v: int| v != l.var() implies !after(a2, n, v) by { if after(a2, n, v) { let j = choose|j: int| n <= j < n + 1 && (#[trigger] a2.trail@[j]).var() == v; assert(j == n); } }
    match r {
        AssignReason::BinaryLink(k) => { lem_step_val(a, a2, l, r, k); }
        AssignReason::Implication(c) => {
            let s = d.clause@[c.ord() as int].lits@;
            assert forall|j: int| 1 <= j < s.len() implies fls(a2, #[trigger] s[j]) && !after(a2, n, s[j].var() as int) by { lem_lits(a, d, c, j); lem_step_val(a, a2, l, r, s[j]); lem_distinct(d, c, 0, j); }
        }
        _ => {}
    }
}
/// a valuation that agrees with a and satisfies the clauses makes l true
proof fn lem_forced(a: AssignStack, d: ClauseDB, l: Lit, r: AssignReason, m: Val)
    requires ready(a, d), a.lit_ok(l), reason_ok(a, d.clause@, l, r), sat_all(m, d.clause@), agrees(m, a)
    ensures vtrue(m, l) {
    let cs = d.clause@;
    match r {
        AssignReason::BinaryLink(k) => {
            let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == l || t[0] == l && t[1] == k.neg() };
            let t = cs[c.ord() as int].lits@; assert(satisfies(m, t));
            lem_neg_props(k); assert(a.var@[k.var() as int].assign.is_some());
            let j = choose|j: int| 0 <= j < t.len() && vtrue(m, #[trigger] t[j]);
            assert(t[j] == l || t[j] == k.neg());
        }
        AssignReason::Implication(c) => {
            let t = cs[c.ord() as int].lits@; assert(satisfies(m, t));
            let j = choose|j: int| 0 <= j < t.len() && vtrue(m, #[trigger] t[j]);
            if j > 0 { lem_lits(a, d, c, j); assert(fls(a, t[j])); assert(a.var@[t[j].var() as int].assign.is_some()); }
        }
        _ => {}
    }
}
proof fn lem_step_follows(a0: AssignStack, a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), stepped(a, a2, l, r), reason_ok(a, d.clause@, l, r), follows(a0, d.clause@, a)
    ensures follows(a0, d.clause@, a2) {
    reveal(follows);
    assert forall|m: Val| sat_all(m, d.clause@) && #[trigger] agrees(m, a0) implies agrees(m, a2) by {
        lem_forced(a, d, l, r, m);
        assert forall|v: int| 1 <= v <= a2.nv() && (#[trigger] a2.var@[v]).assign.is_some() implies m(v) == a2.var@[v].assign.unwrap() by { if v != l.var() { assert(a.var@[v].assign.is_some()); } }
    }
}
pub proof fn lem_covered_step(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason, c: ClauseId, x: Lit)
    requires ready(a, d), stepped(a, a2, l, r), live(d.clause@, c), d.lits(c).contains(x), fls(a, x), covered(a, d.lits(c), x)
    ensures covered(a2, d.lits(c), x) {
    let y = choose|y: Lit| #[trigger] d.lits(c).contains(y) && tru(a, y) && lev(a, y) <= lev(a, x);
    lem_has(a, d, c, y); lem_has(a, d, c, x); lem_step_val(a, a2, l, r, y); lem_step_val(a, a2, l, r, x);
}
pub proof fn lem_fine_step(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason, c: ClauseId, p: int)
    requires ready(a, d), stepped(a, a2, l, r), live(d.clause@, c), 0 <= p < 2, fine(a, d.lits(c), d.lits(c)[p])
    ensures fine(a2, d.lits(c), d.lits(c)[p]) {
    let x = d.lits(c)[p];
    lem_lits(a, d, c, p);
    if fls(a2, x) && !pend(a2, x.var() as int) {
        if x.var() == l.var() { lem_part_push(a.trail@, l, a.q_head as int, l.var() as int); assert(false); }
        lem_after_same(a, a2, l, r, 0, x.var() as int);
        assert(a2.var@[x.var() as int] == a.var@[x.var() as int]);
        lem_covered_step(a, a2, d, l, r, c, x);
    }
}
pub proof fn lem_step_winv(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason, fl: Lit, n: int, x: int)
    requires ready(a, d), stepped(a, a2, l, r), winv(a, d, fl, n, x)
    ensures winv(a2, d, fl, n, x) {
    reveal(winv);
    assert forall|c: ClauseId, p: int| #![trigger d.clause@[c.ord() as int].lits@[p]] live(d.clause@, c) && 0 <= p < 2 implies fine(a2, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[p]) || d.clause@[c.ord() as int].lits@[p] == fl && exempt(d.watch_cache@[fl.neg().ord() as int]@, n, x, c) by {
        if fine(a, d.lits(c), d.lits(c)[p]) { lem_fine_step(a, a2, d, l, r, c, p); }
    }
}
pub proof fn lem_step_complete(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), stepped(a, a2, l, r), complete(a, d.clause@)
    ensures complete(a2, d.clause@) {
    reveal(complete);
    assert forall|c: ClauseId, p: int| #![trigger d.clause@[c.ord() as int].lits@[p]] live(d.clause@, c) && 0 <= p < 2 implies fine(a2, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[p]) by {
        assert(fine(a, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[p])); lem_fine_step(a, a2, d, l, r, c, p);
    }
}
pub proof fn lem_step_saved(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), stepped(a, a2, l, r), saved_just(a, d.clause@)
    ensures saved_just(a2, d.clause@) {
    reveal(saved_just); let cs = d.clause@;
    assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies #[trigger] saved_at(a2, cs, i) by {
        assert(saved_at(a, cs, i)); let k = a.trail_saved@[i]; assert(a.lit_ok(k));
        assert(a2.var@[k.var() as int].reason_saved == a.var@[k.var() as int].reason_saved);
        assert forall|y: Lit| a.lit_ok(y) && #[trigger] avail(a, i, y) implies avail(a2, i, y) by { if tru(a, y) { lem_step_val(a, a2, l, r, y); } else { let j = choose|j: int| i < j < a.trail_saved@.len() && #[trigger] a.trail_saved@[j] == y; assert(a2.trail_saved@[j] == y); } }
        match a.var@[k.var() as int].reason_saved {
            AssignReason::Implication(c) => {
                let s = cs[c.ord() as int].lits@;
                if fls(a, k) { lem_step_val(a, a2, l, r, k); }
                assert forall|x: Lit| #[trigger] s.contains(x) && x != k implies avail(a2, i, x.neg()) by { lem_has(a, d, c, x); lem_neg_props(x); assert(avail(a, i, x.neg())); }
            }
            _ => {}
        }
    }
}
// ---- nothing but the queue and the saved trail changed
pub proof fn lem_queue_ready(a: AssignStack, a2: AssignStack, d: ClauseDB)
    requires ready(a, d), a2 == (AssignStack { var_order: a2.var_order, trail_saved: a2.trail_saved, best_assign: a2.best_assign, num_best_assign: a2.num_best_assign, ..a }), a2.wf(), a2.queue_ok()
    ensures ready(a2, d), complete(a, d.clause@) ==> complete(a2, d.clause@), forall|a0: AssignStack| #[trigger] extended(a0, a) ==> extended(a0, a2), forall|a0: AssignStack| #[trigger] follows(a0, d.clause@, a) ==> follows(a0, d.clause@, a2),
        forall|l: Lit, r: AssignReason| #[trigger] conflict_ok(a, d.clause@, l, r) ==> conflict_ok(a2, d.clause@, l, r) {
    let cs = d.clause@;
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(all_explained(a2, cs)) by { reveal(all_explained);
        assert forall|i: int| 0 <= i < a2.trail@.len() && lev(a2, a2.trail@[i]) > 0 implies #[trigger] explained(a2, cs, i) by { assert(explained(a, cs, i)); match a.var@[a.trail@[i].var() as int].reason { AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; assert forall|j: int| 1 <= j < s.len() implies fls(a2, #[trigger] s[j]) && !after(a2, i, s[j].var() as int) by { assert(fls(a, s[j])); } } _ => {} } } }
    if complete(a, cs) { reveal(complete); assert(complete(a2, cs)) by { assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 implies fine(a2, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by { let s = cs[c.ord() as int].lits@; assert(fine(a, s, s[p])); if covered(a, s, s[p]) { let y = choose|y: Lit| #[trigger] s.contains(y) && tru(a, y) && lev(a, y) <= lev(a, s[p]); assert(tru(a2, y)); } } } }
    assert forall|a0: AssignStack| #[trigger] follows(a0, cs, a) implies follows(a0, cs, a2) by { reveal(follows); assert forall|m: Val| sat_all(m, cs) && #[trigger] agrees(m, a0) implies agrees(m, a2) by { assert(agrees(m, a)); } }
    assert forall|l: Lit, r: AssignReason| #[trigger] conflict_ok(a, cs, l, r) implies conflict_ok(a2, cs, l, r) by { match r { AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; assert forall|j: int| 0 <= j < s.len() implies fls(a2, #[trigger] s[j]) by { assert(fls(a, s[j])); } } _ => {} } }
}
pub proof fn lem_cut_saved(a: AssignStack, a2: AssignStack, cs: Seq<Clause>, n: int)
    requires saved_just(a, cs), a2 == (AssignStack { var_order: a2.var_order, trail_saved: a2.trail_saved, best_assign: a2.best_assign, num_best_assign: a2.num_best_assign, ..a }), 0 <= n <= a.trail_saved@.len(), a2.trail_saved@ == a.trail_saved@.take(n), forall|k: int| n <= k < a.trail_saved@.len() ==> tru(a, #[trigger] a.trail_saved@[k])
    ensures saved_just(a2, cs) {
    reveal(saved_just);
    assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies #[trigger] saved_at(a2, cs, i) by {
        assert(saved_at(a, cs, i)); assert(a2.trail_saved@[i] == a.trail_saved@[i]);
        assert forall|y: Lit| #[trigger] avail(a, i, y) implies avail(a2, i, y) by { if !tru(a, y) { let j = choose|j: int| i < j < a.trail_saved@.len() && #[trigger] a.trail_saved@[j] == y; if j < n { assert(a2.trail_saved@[j] == y); } } else { assert(tru(a2, y)); } }
        match a.var@[a.trail_saved@[i].var() as int].reason_saved { AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; let l = a.trail_saved@[i]; assert forall|x: Lit| #[trigger] s.contains(x) && x != l implies avail(a2, i, x.neg()) by { assert(avail(a, i, x.neg())); } } _ => {} }
    }
}
pub proof fn lem_no_saved(a: AssignStack, cs: Seq<Clause>) requires a.trail_saved@.len() == 0 ensures saved_just(a, cs) { reveal(saved_just); }
/// what a saved entry says once the entries before it are true again
pub proof fn lem_saved_use(a: AssignStack, d: ClauseDB, i: int)
    requires ready(a, d), saved_just(a, d.clause@), 0 <= i < a.trail_saved@.len(), forall|k: int| i < k < a.trail_saved@.len() ==> tru(a, #[trigger] a.trail_saved@[k])
    ensures ({ let l = a.trail_saved@[i]; let r = a.var@[l.var() as int].reason_saved; 
        &&& a.value(l.var() as int).is_none() && !(r is Decision) ==> reason_ok(a, d.clause@, l, r)
        &&& fls(a, l) && r is BinaryLink ==> conflict_ok(a, d.clause@, l, r) 
        &&& r matches AssignReason::Implication(c) ==> live(d.clause@, c) && d.lits(c).len() >= 2 && d.lits(c).contains(l) && (fls(a, l) ==> forall|k: int| 0 <= k < d.lits(c).len() ==> fls(a, #[trigger] d.lits(c)[k])) }) {
    reveal(saved_just); let cs = d.clause@; let l = a.trail_saved@[i]; let r = a.var@[l.var() as int].reason_saved;
    assert(saved_at(a, cs, i)); assert(a.lit_ok(l)); assert(r != AssignReason::None);
    assert forall|y: Lit| #[trigger] avail(a, i, y) implies tru(a, y) by { if !tru(a, y) { let j = choose|j: int| i < j < a.trail_saved@.len() && #[trigger] a.trail_saved@[j] == y; assert(tru(a, a.trail_saved@[j])); } }
    match r {
        AssignReason::Implication(c) => {
            let s = cs[c.ord() as int].lits@;
            lem_has(a, d, c, l); assert(legal(s, d.nl()));
            assert forall|j: int| 0 <= j < s.len() && #[trigger] s[j] != l implies fls(a, s[j]) by { lem_lits(a, d, c, j); assert(avail(a, i, s[j].neg())); lem_neg_props(s[j]); assert(tru(a, s[j].neg())); }
            if a.value(l.var() as int).is_none() { assert(s[0] == l); assert forall|j: int| 0 <= j < s.len() && j != 0 implies fls(a, #[trigger] s[j]) by { lem_distinct(d, c, 0, j); } }
        }
        AssignReason::BinaryLink(k) => { assert(avail(a, i, k)); }
        _ => {}
    }
}
"""


SPEC2 = r"""
// ---- what reordering the literals of a clause keeps
pub proof fn lem_set_refl(s: Seq<Lit>) ensures same_set(s, s) { }
pub proof fn lem_sets_refl(cs: Seq<Clause>) ensures same_sets(cs, cs) { reveal(same_sets); }
pub proof fn lem_sets_trans(a: Seq<Clause>, b: Seq<Clause>, c: Seq<Clause>) requires same_sets(a, b), same_sets(b, c) ensures same_sets(a, c) {
    reveal(same_sets);
    assert forall|j: int| 0 <= j < a.len() implies same_set(a[j].lits@, (#[trigger] c[j]).lits@) && c[j].flags == a[j].flags by { assert(same_set(a[j].lits@, b[j].lits@)); assert(same_set(b[j].lits@, c[j].lits@)); }
}
pub proof fn lem_sat_set(m: Val, s: Seq<Lit>, t: Seq<Lit>) requires same_set(s, t) ensures satisfies(m, s) == satisfies(m, t) {
    if satisfies(m, s) { let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(s.contains(s[i])); assert(t.contains(s[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(vtrue(m, t[j])); }
    if satisfies(m, t) { let i = choose|i: int| 0 <= i < t.len() && vtrue(m, #[trigger] t[i]); assert(t.contains(t[i])); assert(s.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(vtrue(m, s[j])); }
}
pub proof fn lem_sat_sets(m: Val, cs: Seq<Clause>, cs2: Seq<Clause>) requires same_sets(cs, cs2) ensures sat_all(m, cs) == sat_all(m, cs2) {
    reveal(same_sets);
    assert forall|j: int| 0 <= j < cs.len() implies satisfies(m, (#[trigger] cs[j]).lits@) == satisfies(m, cs2[j].lits@) && cs[j].dead() == cs2[j].dead() by { assert(same_set(cs[j].lits@, cs2[j].lits@)); lem_sat_set(m, cs[j].lits@, cs2[j].lits@); }
    if sat_all(m, cs) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(!cs[j].dead()); } }
    if sat_all(m, cs2) { assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { assert(!cs2[j].dead()); } }
}
pub proof fn lem_follows_sets(a0: AssignStack, cs: Seq<Clause>, cs2: Seq<Clause>, a: AssignStack) requires follows(a0, cs, a), same_sets(cs, cs2) ensures follows(a0, cs2, a) {
    reveal(follows);
    assert forall|m: Val| sat_all(m, cs2) && #[trigger] agrees(m, a0) implies agrees(m, a) by { lem_sat_sets(m, cs, cs2); }
}
pub proof fn lem_covered_set(a: AssignStack, s: Seq<Lit>, t: Seq<Lit>, l: Lit) requires same_set(s, t), covered(a, s, l) ensures covered(a, t, l) {
    let x = choose|x: Lit| #[trigger] s.contains(x) && tru(a, x) && lev(a, x) <= lev(a, l); assert(t.contains(x)); }
pub proof fn lem_paired(cs: Seq<Clause>, cs2: Seq<Clause>, i: int, x: Lit, y: Lit)
    requires cs2.len() == cs.len(), 0 <= i < cs.len(), cs[i].lits@.len() != 2, forall|j: int| 0 <= j < cs.len() && j != i ==> #[trigger] cs2[j] == cs[j], paired(cs, x, y)
    ensures paired(cs2, x, y) {
    let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == x && t[1] == y || t[0] == y && t[1] == x };
    assert(cs2[c.ord() as int] == cs[c.ord() as int]); assert(is_bi(cs2, c)); }
/// d2 is d with the literals of clause c in another order, and watch entries that are old or in their clause
pub open spec fn reordered(d: ClauseDB, d2: ClauseDB, c: ClauseId) -> bool {
    let s = d.lits(c); let t = d2.lits(c);
    &&& d2.clause@.len() == d.clause@.len() && d2.nl() == d.nl() && live(d.clause@, c) && s.len() >= 3 && same_set(s, t)
    &&& forall|j: int| 0 <= j < d.clause@.len() && j != c.ord() ==> #[trigger] d2.clause@[j] == d.clause@[j]
    &&& d2.clause@[c.ord() as int].flags == d.clause@[c.ord() as int].flags && d2.clause@[c.ord() as int].search_from >= 2
    &&& forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() ==> {
        let e = d2.watch_cache@[w]@[j];
        e.0.ord() < d2.clause@.len() && d2.lits(e.0).contains(e.1) && live(d2.clause@, e.0) || d.watch_cache@[w]@.contains(e) }
}
pub proof fn lem_reordered(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId)
    requires ready(a, d), reordered(d, d2, c), d2.wf(), d2.lits(c)[0] == d.lits(c)[0] || fls(a, d.lits(c)[0])
    ensures ready(a, d2), same_sets(d.clause@, d2.clause@), saved_just(a, d.clause@) ==> saved_just(a, d2.clause@), forall|a0: AssignStack| #[trigger] follows(a0, d.clause@, a) ==> follows(a0, d2.clause@, a) {
    let cs = d.clause@; let cs2 = d2.clause@; let s = d.lits(c); let t = d2.lits(c);
    assert(same_sets(cs, cs2)) by { reveal(same_sets); assert forall|j: int| 0 <= j < cs.len() implies same_set(cs[j].lits@, (#[trigger] cs2[j]).lits@) && cs2[j].flags == cs[j].flags by { if j != c.ord() { lem_set_refl(cs[j].lits@); } } }
    assert(d2.readable(a)) by { assert forall|j: int| 0 <= j < cs2.len() implies a.reads((#[trigger] cs2[j]).lits@) by {
        assert(a.reads(cs[j].lits@)); if j == c.ord() { assert forall|i: int| 0 <= i < t.len() implies a.lit_ok(#[trigger] t[i]) by { assert(t.contains(t[i])); assert(s.contains(t[i])); lem_has(a, d, c, t[i]); } } } }
    assert(blockers_ok(a, d2)) by { reveal(blockers_ok);
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d2.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by {
            let e = d2.watch_cache@[w]@[j];
            if e.0.ord() < d2.clause@.len() && d2.lits(e.0).contains(e.1) && live(d2.clause@, e.0) { lem_has(a, d2, e.0, e.1); }
            else { let k = choose|k: int| 0 <= k < d.watch_cache@[w]@.len() && d.watch_cache@[w]@[k] == e; assert(d.watch_cache@[w]@[k] == e);
                assert(has_cid(d2.watch_cache@[w]@, e.0)); assert(watched(cs2, w, e.0)); if e.0.ord() == c.ord() { assert(t.contains(e.1) == s.contains(e.1)); } else { assert(cs2[e.0.ord() as int] == cs[e.0.ord() as int]); } } } }
    assert(from_ok(cs2));
    lem_reordered_expl(a, d, d2, c);
    assert forall|a0: AssignStack| #[trigger] follows(a0, cs, a) implies follows(a0, cs2, a) by { lem_follows_sets(a0, cs, cs2, a); }
    if saved_just(a, cs) { lem_reordered_saved(a, d, d2, c); }
}
proof fn lem_reordered_expl(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId)
    requires ready(a, d), reordered(d, d2, c), d2.wf(), d2.lits(c)[0] == d.lits(c)[0] || fls(a, d.lits(c)[0])
    ensures all_explained(a, d2.clause@) {
    reveal(all_explained);
    let cs = d.clause@; let cs2 = d2.clause@; let s = d.lits(c); let t = d2.lits(c);
    assert forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 implies #[trigger] explained(a, cs2, i) by {
        assert(explained(a, cs, i)); let l = a.trail@[i]; assert(a.lit_ok(l)); assert(tru(a, l));
        match a.var@[l.var() as int].reason {
            AssignReason::BinaryLink(k) => { lem_paired(cs, cs2, c.ord() as int, k.neg(), l); }
            AssignReason::Implication(e) => {
                if e.ord() == c.ord() {
                    assert(legal(t, d2.nl()));
                    assert forall|j: int| 1 <= j < t.len() implies fls(a, #[trigger] t[j]) && !after(a, i, t[j].var() as int) by {
                        assert(t.contains(t[j])); assert(s.contains(t[j])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[j]; lem_distinct(d2, c, 0, j); assert(k >= 1); assert(fls(a, s[k])); }
                } else { assert(cs2[e.ord() as int] == cs[e.ord() as int]); }
            }
            _ => {}
        }
    }
}
proof fn lem_reordered_saved(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId)
    requires ready(a, d), reordered(d, d2, c), d2.wf(), d2.lits(c)[0] == d.lits(c)[0] || fls(a, d.lits(c)[0]), saved_just(a, d.clause@)
    ensures saved_just(a, d2.clause@) {
    reveal(saved_just);
    let cs = d.clause@; let cs2 = d2.clause@; let s = d.lits(c); let t = d2.lits(c);
    assert forall|i: int| 0 <= i < a.trail_saved@.len() implies #[trigger] saved_at(a, cs2, i) by {
        assert(saved_at(a, cs, i)); let l = a.trail_saved@[i];
        match a.var@[l.var() as int].reason_saved {
            AssignReason::BinaryLink(k) => { lem_paired(cs, cs2, c.ord() as int, k.neg(), l); }
            AssignReason::Implication(e) => { if e.ord() != c.ord() { assert(cs2[e.ord() as int] == cs[e.ord() as int]); } else {
                assert forall|x: Lit| #[trigger] t.contains(x) && x != l implies avail(a, i, x.neg()) by { assert(s.contains(x)); } } }
            _ => {}
        }
    }
}
/// only search_from, used, flags other than those ... of clauses differ: nothing here depends on them
pub proof fn lem_counted(a: AssignStack, d: ClauseDB, d2: ClauseDB)
    requires ready(a, d), same_clauses(d.clause@, d2.clause@), d2 == (ClauseDB { clause: d2.clause, ..d }), from_ok(d2.clause@)
    ensures ready(a, d2), same_sets(d.clause@, d2.clause@), saved_just(a, d.clause@) ==> saved_just(a, d2.clause@), forall|a0: AssignStack| #[trigger] follows(a0, d.clause@, a) ==> follows(a0, d2.clause@, a),
        forall|fl: Lit, n: int, x: int| #[trigger] winv(a, d, fl, n, x) ==> winv(a, d2, fl, n, x) {
    let cs = d.clause@; let cs2 = d2.clause@;
    lem_same_clauses(cs, cs2, d.watch_cache@, d.binary_link, d.freelist@);
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).lits@ == cs2[j].lits@ by { assert(cs2[j].lits@ == cs[j].lits@); }
    assert(same_sets(cs, cs2)) by { reveal(same_sets); }
    assert(d2.readable(a)) by { assert forall|j: int| 0 <= j < cs2.len() implies a.reads((#[trigger] cs2[j]).lits@) by { assert(a.reads(cs[j].lits@)); } }
    assert forall|x: Lit, y: Lit| #[trigger] paired(cs, x, y) implies paired(cs2, x, y) by { let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == x && t[1] == y || t[0] == y && t[1] == x }; assert(is_bi(cs2, c)); }
    assert(blockers_ok(a, d2)) by { reveal(blockers_ok); 
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d2.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(has_cid(d.watch_cache@[w]@, e.0)); assert(watched(cs, w, e.0)); assert(d2.lits(e.0) == d.lits(e.0)); } }
    assert(all_explained(a, cs2)) by { reveal(all_explained); assert forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 implies #[trigger] explained(a, cs2, i) by { assert(explained(a, cs, i)); match a.var@[a.trail@[i].var() as int].reason { AssignReason::Implication(e) => { assert(cs[e.ord() as int].lits@ == cs2[e.ord() as int].lits@); } _ => {} } } }
    if saved_just(a, cs) { reveal(saved_just); assert forall|i: int| 0 <= i < a.trail_saved@.len() implies #[trigger] saved_at(a, cs2, i) by { assert(saved_at(a, cs, i)); } }
    assert forall|a0: AssignStack| #[trigger] follows(a0, cs, a) implies follows(a0, cs2, a) by { lem_follows_sets(a0, cs, cs2, a); }
    assert forall|fl: Lit, n: int, x: int| #[trigger] winv(a, d, fl, n, x) implies winv(a, d2, fl, n, x) by { reveal(winv);
        assert forall|c: ClauseId, p: int| #![trigger d2.clause@[c.ord() as int].lits@[p]] live(d2.clause@, c) && 0 <= p < 2 implies fine(a, d2.clause@[c.ord() as int].lits@, d2.clause@[c.ord() as int].lits@[p]) || d2.clause@[c.ord() as int].lits@[p] == fl && exempt(d2.watch_cache@[fl.neg().ord() as int]@, n, x, c) by { assert(live(d.clause@, c)); assert(d.clause@[c.ord() as int].lits@[p] == d2.clause@[c.ord() as int].lits@[p]); } }
}
// ---- steps of the loop over a watch list
/// the next literal is taken from the trail
pub proof fn lem_pop(a: AssignStack, a2: AssignStack, d: ClauseDB)
    requires ready(a, d), a.q_head < a.trail@.len(), a2 == (AssignStack { q_head: (a.q_head + 1) as usize, ..a })
    ensures ready(a2, d), complete(a, d.clause@) ==> winv(a2, d, a.trail@[a.q_head as int].neg(), -1, 0), tru(a2, a.trail@[a.q_head as int]), fls(a2, a.trail@[a.q_head as int].neg()), a.lit_ok(a.trail@[a.q_head as int]), lev(a2, a.trail@[a.q_head as int]) == a2.trail_lim@.len(),
        a.trail@[a.q_head as int].neg().neg() == a.trail@[a.q_head as int], a.lit_ok(a.trail@[a.q_head as int].neg()), a.trail@[a.q_head as int].ord() < d.nl(), a.trail@[a.q_head as int].neg().ord() < d.nl(),
        saved_just(a, d.clause@) ==> saved_just(a2, d.clause@), forall|a0: AssignStack| #[trigger] extended(a0, a) ==> extended(a0, a2), forall|a0: AssignStack| #[trigger] follows(a0, d.clause@, a) ==> follows(a0, d.clause@, a2) {
    let q = a.q_head as int; let p = a.trail@[q]; let cs = d.clause@;
    lem_neg_props(p); a.lem_levels();
    assert(a.lit_ok(p));
    assert(p.ord() < d.nl() && p.neg().ord() < d.nl()) by { assert(p.ord() / 2 == p.var()); assert(p.neg().ord() / 2 == p.neg().var()); }
    lem_relooked(a, a2, d);
    if complete(a, cs) {
        reveal(complete); reveal(winv);
        assert forall|c: ClauseId, k: int| #![trigger d.clause@[c.ord() as int].lits@[k]] live(d.clause@, c) && 0 <= k < 2 implies fine(a2, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[k]) || d.clause@[c.ord() as int].lits@[k] == p.neg() by {
            let x = d.lits(c)[k]; lem_lits(a, d, c, k); assert(fine(a, d.lits(c), x));
            if fls(a2, x) && !pend(a2, x.var() as int) && x != p.neg() {
                assert(x.var() != p.var()) by { if x.var() == p.var() { lem_same_var(x, p.neg()); } }
                assert(!pend(a, x.var() as int)) by { if pend(a, x.var() as int) { let j = choose|j: int| q <= j < a.trail@.len() && (#[trigger] a.trail@[j]).var() == x.var(); assert(a2.trail@[j].var() == x.var()); } }
                assert(covered(a, d.lits(c), x)); let y = choose|y: Lit| #[trigger] d.lits(c).contains(y) && tru(a, y) && lev(a, y) <= lev(a, x); assert(tru(a2, y));
            }
        }
    }
}
/// nothing but q_head changed (forward)
proof fn lem_relooked(a: AssignStack, a2: AssignStack, d: ClauseDB)
    requires ready(a, d), a.q_head < a.trail@.len(), a2 == (AssignStack { q_head: (a.q_head + 1) as usize, ..a }), a.trail@.len() < usize::MAX
    ensures ready(a2, d), saved_just(a, d.clause@) ==> saved_just(a2, d.clause@), forall|a0: AssignStack| #[trigger] extended(a0, a) ==> extended(a0, a2), forall|a0: AssignStack| #[trigger] follows(a0, d.clause@, a) ==> follows(a0, d.clause@, a2) {
    let cs = d.clause@;
    assert(a2.trail@ == a.trail@);
    assert(a2.saved_ok()) by { assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies a2.lit_ok(#[trigger] a2.trail_saved@[i]) && a2.var@[a2.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(a.lit_ok(a.trail_saved@[i])); } }
    assert(a2.trail_ok()) by { assert forall|i: int| 0 <= i < a2.trail@.len() implies a2.lit_ok(#[trigger] a2.trail@[i]) && a2.value(a2.trail@[i].var() as int) == Some(a2.trail@[i].sign()) && a2.var@[a2.trail@[i].var() as int].reason != AssignReason::None by { assert(a.lit_ok(a.trail@[i])); }
        assert forall|v: int| 1 <= v <= a2.nv() && (#[trigger] a2.var@[v]).assign.is_some() && !a2.on_trail(v) implies a2.var@[v].level == 0 by { if a.on_trail(v) { let i = choose|i: int| 0 <= i < a.trail@.len() && #[trigger] a.trail@[i].var() == v; assert(a2.trail@[i].var() == v); } } }
    assert(a2.lev_ok()) by { assert forall|i: int| 0 <= i < a2.trail@.len() implies #[trigger] a2.lev_at(i) by { assert(a.lev_at(i)); } }
    assert(a2.wf());
    assert(a2.queue_ok()) by { assert forall|v: int| #[trigger] a2.open_var(v) implies a2.kept(v) by { assert(a.open_var(v)); assert(a.kept(v)); if !a.var_order.has(v) { let i = choose|i: int| 0 <= i < a.trail_saved@.len() && #[trigger] a.trail_saved@[i].var() == v; assert(a2.trail_saved@[i].var() == v); } } }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(all_explained(a2, cs)) by { reveal(all_explained);
        assert forall|i: int| 0 <= i < a2.trail@.len() && lev(a2, a2.trail@[i]) > 0 implies #[trigger] explained(a2, cs, i) by { assert(explained(a, cs, i)); match a.var@[a.trail@[i].var() as int].reason { AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; assert forall|j: int| 1 <= j < s.len() implies fls(a2, #[trigger] s[j]) && !after(a2, i, s[j].var() as int) by { assert(fls(a, s[j])); } } _ => {} } } }
    if saved_just(a, cs) { reveal(saved_just); assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies #[trigger] saved_at(a2, cs, i) by { assert(saved_at(a, cs, i));
        assert forall|y: Lit| #[trigger] avail(a, i, y) implies avail(a2, i, y) by { if !tru(a, y) { let j = choose|j: int| i < j < a.trail_saved@.len() && #[trigger] a.trail_saved@[j] == y; assert(a2.trail_saved@[j] == y); } }
        match a.var@[a.trail_saved@[i].var() as int].reason_saved { AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; let l = a.trail_saved@[i]; assert forall|x: Lit| #[trigger] s.contains(x) && x != l implies avail(a2, i, x.neg()) by { assert(avail(a, i, x.neg())); } } _ => {} } } }
    assert forall|a0: AssignStack| #[trigger] follows(a0, cs, a) implies follows(a0, cs, a2) by { reveal(follows); assert forall|m: Val| sat_all(m, cs) && #[trigger] agrees(m, a0) implies agrees(m, a2) by { assert(agrees(m, a)); } }
}
/// the two-literal clauses with fl are done: those left are in the watch list
pub proof fn lem_bi_done(a: AssignStack, d: ClauseDB, fl: Lit)
    requires ready(a, d), winv(a, d, fl, -1, 0), a.lit_ok(fl), fl.ord() < d.nl(), fl.neg().ord() < d.nl(), lev(a, fl) == a.trail_lim@.len(),
        forall|k: int| 0 <= k < d.binary_link.list@[fl.ord() as int]@.len() ==> tru(a, (#[trigger] d.binary_link.list@[fl.ord() as int]@[k]).0)
    ensures winv(a, d, fl, 0, 0) {
    reveal(winv); let cs = d.clause@; let w = fl.neg().ord() as int; let ls = d.binary_link.list@[fl.ord() as int]@;
    assert forall|c: ClauseId, p: int| #![trigger d.clause@[c.ord() as int].lits@[p]] live(d.clause@, c) && 0 <= p < 2 implies fine(a, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[p]) || d.clause@[c.ord() as int].lits@[p] == fl && exempt(d.watch_cache@[fl.neg().ord() as int]@, 0, 0, c) by {
        let s = d.lits(c);
        if !fine(a, s, s[p]) {
            assert(s[p] == fl); lem_lits(a, d, c, p);
            if s.len() == 2 { let o = s[1 - p]; assert(linked(cs, fl.ord() as int, o, c)); assert(has_lnk(ls, o, c)); let k = choose|k: int| 0 <= k < ls.len() && #[trigger] ls[k] == (o, c); assert(tru(a, ls[k].0)); lem_lits(a, d, c, 1 - p); lem_level_max(a, o); assert(covered(a, s, fl)); }
            else { assert(watched(cs, w, c)); assert(has_cid(d.watch_cache@[w]@, c)); let i = choose|i: int| 0 <= i < d.watch_cache@[w]@.len() && (#[trigger] d.watch_cache@[w]@[i]).0 == c; assert(later(d.watch_cache@[w]@, 0, c)); }
        }
    }
}
/// no assignment is above the current level
pub proof fn lem_level_max(a: AssignStack, l: Lit) requires a.wf(), a.lit_ok(l), a.value(l.var() as int).is_some() ensures lev(a, l) <= a.trail_lim@.len() {
    let v = l.var() as int; if a.on_trail(v) { let i = choose|i: int| 0 <= i < a.trail@.len() && #[trigger] a.trail@[i].var() == v; assert(a.lev_at(i)); } else { assert(a.var@[v].assign.is_some()); }
}
pub proof fn lem_later_next(s: Seq<(ClauseId, Lit)>, n: int, c: ClauseId) requires 0 <= n < s.len(), later(s, n, c) ensures later(s, n + 1, c) || c == s[n].0 {
    let j = choose|j: int| n <= j < s.len() && (#[trigger] s[j]).0 == c; if j > n { assert(s[j].0 == c); } }
pub proof fn lem_later_gone(s: Seq<(ClauseId, Lit)>, n: int, c: ClauseId) requires 0 <= n < s.len(), later(s, n, c), c != s[n].0 ensures later(gone_at(s, n), n, c) {
    let j = choose|j: int| n <= j < s.len() && (#[trigger] s[j]).0 == c; let r = gone_at(s, n); if j == s.len() - 1 { assert(r[n].0 == c); } else { assert(r[j] == s[j]); assert(r[j].0 == c); } }
/// the entry number n of the list is restored: its clause is the only one before n + 1 still open
pub proof fn lem_w_next(a: AssignStack, d: ClauseDB, d2: ClauseDB, fl: Lit, n: int)
    requires winv(a, d, fl, n, 0), d2.clause == d.clause, 0 <= n < d.watch_cache@[fl.neg().ord() as int]@.len(), d2.watch_cache@[fl.neg().ord() as int]@.len() == d.watch_cache@[fl.neg().ord() as int]@.len(),
        forall|i: int| 0 <= i < d.watch_cache@[fl.neg().ord() as int]@.len() ==> (#[trigger] d2.watch_cache@[fl.neg().ord() as int]@[i]).0 == d.watch_cache@[fl.neg().ord() as int]@[i].0
    ensures winv(a, d2, fl, n + 1, d.watch_cache@[fl.neg().ord() as int]@[n].0.ord() as int) {
    reveal(winv); let w = fl.neg().ord() as int; let s = d.watch_cache@[w]@; let t = d2.watch_cache@[w]@; let x = s[n].0.ord() as int;
    assert forall|c: ClauseId, p: int| #![trigger d2.clause@[c.ord() as int].lits@[p]] live(d2.clause@, c) && 0 <= p < 2 implies fine(a, d2.clause@[c.ord() as int].lits@, d2.clause@[c.ord() as int].lits@[p]) || d2.clause@[c.ord() as int].lits@[p] == fl && exempt(d2.watch_cache@[w]@, n + 1, x, c) by {
        if d2.lits(c)[p] == fl && exempt(s, n, 0, c) && !fine(a, d2.lits(c), fl) { lem_later_next(s, n, c); if later(s, n + 1, c) { let j = choose|j: int| n + 1 <= j < s.len() && (#[trigger] s[j]).0 == c; assert(t[j].0 == c); } } }
}
/// clause x is done
pub proof fn lem_w_done(a: AssignStack, d: ClauseDB, fl: Lit, n: int, c: ClauseId)
    requires winv(a, d, fl, n, c.ord() as int), fine(a, d.lits(c), fl) || !live(d.clause@, c)
    ensures winv(a, d, fl, n, 0) {
    reveal(winv);
    assert forall|e: ClauseId, p: int| #![trigger d.clause@[e.ord() as int].lits@[p]] live(d.clause@, e) && 0 <= p < 2 implies fine(a, d.clause@[e.ord() as int].lits@, d.clause@[e.ord() as int].lits@[p]) || d.clause@[e.ord() as int].lits@[p] == fl && exempt(d.watch_cache@[fl.neg().ord() as int]@, n, 0, e) by { if e.ord() == c.ord() { assert(d.lits(e) == d.lits(c)); } }
}
/// the literals of clause c are reordered; what it watches now it watched before or is not false
pub proof fn lem_w_reorder(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, fl: Lit, n: int, x: int, x2: int)
    requires winv(a, d, fl, n, x), n >= 0, reordered(d, d2, c), d.index_ok(), forall|p: int| 0 <= p < 2 ==> { let l = #[trigger] d2.lits(c)[p]; !fls(a, l) || l == d.lits(c)[0] || l == d.lits(c)[1] },
        forall|e: ClauseId| #[trigger] exempt(d.watch_cache@[fl.neg().ord() as int]@, n, x, e) ==> exempt(d2.watch_cache@[fl.neg().ord() as int]@, n, x2, e) || e.ord() == c.ord() && d2.lits(c)[0] != fl && d2.lits(c)[1] != fl
    ensures winv(a, d2, fl, n, x2) {
    reveal(winv); let w = fl.neg().ord() as int;
    assert forall|e: ClauseId, p: int| #![trigger d2.clause@[e.ord() as int].lits@[p]] live(d2.clause@, e) && 0 <= p < 2 implies fine(a, d2.clause@[e.ord() as int].lits@, d2.clause@[e.ord() as int].lits@[p]) || d2.clause@[e.ord() as int].lits@[p] == fl && exempt(d2.watch_cache@[w]@, n, x2, e) by {
        if e.ord() != c.ord() { assert(d2.clause@[e.ord() as int] == d.clause@[e.ord() as int]); assert(live(d.clause@, e)); assert(d.clause@[e.ord() as int].lits@[p] == d2.clause@[e.ord() as int].lits@[p]); }
        else {
            let s = d.lits(c); let t = d2.lits(c); let l = t[p]; assert(d2.lits(e) == t);
            if fls(a, l) && !pend(a, l.var() as int) {
                let q = if l == s[0] { 0int } else { 1 }; assert(s[q] == l); assert(live(d.clause@, c));
                assert(fine(a, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[q]) || l == fl && exempt(d.watch_cache@[w]@, n, x, c));
                if fine(a, s, l) { lem_covered_set(a, s, t, l); } else { assert(exempt(d.watch_cache@[w]@, n, x, c)); assert(exempt(d2.watch_cache@[w]@, n, x2, c)); assert(c.ord() == e.ord()); assert(c == e); }
            }
        }
    }
}
/// the whole list is done
pub proof fn lem_w_end(a: AssignStack, d: ClauseDB, fl: Lit, n: int)
    requires winv(a, d, fl, n, 0), n >= d.watch_cache@[fl.neg().ord() as int]@.len()
    ensures complete(a, d.clause@) {
    reveal(winv); reveal(complete);
    assert forall|c: ClauseId, p: int| #![trigger d.clause@[c.ord() as int].lits@[p]] live(d.clause@, c) && 0 <= p < 2 implies fine(a, d.clause@[c.ord() as int].lits@, d.clause@[c.ord() as int].lits@[p]) by { assert(!exempt(d.watch_cache@[fl.neg().ord() as int]@, n, 0, c)); }
}
/// what is left after a conflict
pub proof fn lem_w_below(a: AssignStack, d: ClauseDB, fl: Lit, n: int, x: int)
    requires ready(a, d), winv(a, d, fl, n, x), lev(a, fl) == a.trail_lim@.len()
    ensures complete_below(a, d.clause@) {
    reveal(winv); reveal(complete_below); let cs = d.clause@;
    assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 && fls(a, cs[c.ord() as int].lits@[p]) && lev(a, cs[c.ord() as int].lits@[p]) < a.trail_lim@.len() implies covered(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by { lem_not_pending(a, cs[c.ord() as int].lits@[p].var() as int); }
}
proof fn lem_not_pending(a: AssignStack, v: int) requires upto(a), a.var@[v].level < a.trail_lim@.len() ensures !pend(a, v) { if pend(a, v) { let j = choose|j: int| a.q_head <= j < a.trail@.len() && (#[trigger] a.trail@[j]).var() == v; assert(lev(a, a.trail@[j]) == a.trail_lim@.len()); } }
pub proof fn lem_complete_below(a: AssignStack, d: ClauseDB) requires ready(a, d), complete(a, d.clause@) ensures complete_below(a, d.clause@) {
    reveal(complete); reveal(complete_below); let cs = d.clause@;
    assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 && fls(a, cs[c.ord() as int].lits@[p]) && lev(a, cs[c.ord() as int].lits@[p]) < a.trail_lim@.len() implies covered(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by { lem_not_pending(a, cs[c.ord() as int].lits@[p].var() as int); assert(fine(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p])); }
}
// ---- C10
/// no conflict: no clause is false, and none has all but one literal false and that one unassigned
pub proof fn theorem_complete(a: AssignStack, d: ClauseDB, c: ClauseId)
    requires ready(a, d), complete(a, d.clause@), a.q_head == a.trail@.len(), live(d.clause@, c)
    ensures exists|k: int| 0 <= k < d.lits(c).len() && !fls(a, #[trigger] d.lits(c)[k]),
        forall|k: int| 0 <= k < d.lits(c).len() && a.lit_value(#[trigger] d.lits(c)[k]).is_none() ==> exists|j: int| 0 <= j < d.lits(c).len() && j != k && !fls(a, #[trigger] d.lits(c)[j]) {
    reveal(complete); let s = d.lits(c); let cs = d.clause@;
    lem_lits(a, d, c, 0); lem_lits(a, d, c, 1);
    assert forall|p: int| 0 <= p < 2 && fls(a, #[trigger] s[p]) implies exists|k: int| 0 <= k < s.len() && tru(a, #[trigger] s[k]) by {
        assert(fine(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p])); assert(!pend(a, s[p].var() as int)); let x = choose|x: Lit| #[trigger] s.contains(x) && tru(a, x) && lev(a, x) <= lev(a, s[p]); let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(tru(a, s[k])); }
    if fls(a, s[0]) { let k = choose|k: int| 0 <= k < s.len() && tru(a, #[trigger] s[k]); assert(!fls(a, s[k])); } else { assert(!fls(a, s[0])); }
    assert forall|k: int| 0 <= k < s.len() && a.lit_value(#[trigger] s[k]).is_none() implies exists|j: int| 0 <= j < s.len() && j != k && !fls(a, #[trigger] s[j]) by {
        let p = if k == 0 { 1int } else { 0 };
        if fls(a, s[p]) { let j = choose|j: int| 0 <= j < s.len() && tru(a, #[trigger] s[j]); assert(j != k); assert(!fls(a, s[j])); } else { assert(!fls(a, s[p])); }
    }
}

// ---- all that holds while the literal p of the trail is being propagated
pub open spec fn going(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB) -> bool {
    &&& ready(a, d) && extended(a0, a) && follows(a0, d.clause@, a) && same_sets(d0.clause@, d.clause@)
    &&& saved_just(a0, d0.clause@) ==> saved_just(a, d.clause@)
    &&& d == (ClauseDB { clause: d.clause, watch_cache: d.watch_cache, ..d0 }) && d.nl() == d0.nl()
}
pub open spec fn taken(a: AssignStack, d: ClauseDB, p: Lit, fl: Lit) -> bool {
    &&& a.lit_ok(p) && a.lit_ok(fl) && p.neg() == fl && fl.neg() == p && p.ord() < d.nl() && fl.ord() < d.nl() && tru(a, p) && fls(a, fl) && lev(a, fl) == a.trail_lim@.len()
}
pub proof fn lem_go_start(a: AssignStack, d: ClauseDB) requires ready(a, d) ensures going(a, d, a, d) {
    lem_sets_refl(d.clause@); assert(a.trail@.take(a.trail@.len() as int) =~= a.trail@); reveal(follows); }
pub proof fn lem_go_step(a0: AssignStack, d0: ClauseDB, a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires going(a0, d0, a, d), stepped(a, a2, l, r), reason_ok(a, d.clause@, l, r)
    ensures going(a0, d0, a2, d), tru(a2, l), lev(a2, l) == a2.trail_lim@.len(), forall|p: Lit, fl: Lit| #[trigger] taken(a, d, p, fl) ==> taken(a2, d, p, fl), forall|fl: Lit, n: int, x: int| #[trigger] winv(a, d, fl, n, x) ==> winv(a2, d, fl, n, x), complete(a, d.clause@) ==> complete(a2, d.clause@) {
    lem_step_ready(a0, a, a2, d, l, r);
    if saved_just(a, d.clause@) { lem_step_saved(a, a2, d, l, r); }
    if complete(a, d.clause@) { lem_step_complete(a, a2, d, l, r); }
    assert forall|fl: Lit, n: int, x: int| #[trigger] winv(a, d, fl, n, x) implies winv(a2, d, fl, n, x) by { lem_step_winv(a, a2, d, l, r, fl, n, x); }
}
pub proof fn lem_go_reorder(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId)
    requires going(a0, d0, a, d), reordered(d, d2, c), d2.wf(), d2.lits(c)[0] == d.lits(c)[0] || fls(a, d.lits(c)[0]), d2 == (ClauseDB { clause: d2.clause, watch_cache: d2.watch_cache, ..d })
    ensures going(a0, d0, a, d2) {
    lem_reordered(a, d, d2, c); lem_sets_trans(d0.clause@, d.clause@, d2.clause@);
}
pub proof fn lem_go_touch(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB)
    requires going(a0, d0, a, d), same_clauses(d.clause@, d2.clause@), d2 == (ClauseDB { clause: d2.clause, ..d }), from_ok(d2.clause@)
    ensures going(a0, d0, a, d2), forall|fl: Lit, n: int, x: int| #[trigger] winv(a, d, fl, n, x) ==> winv(a, d2, fl, n, x) {
    lem_counted(a, d, d2); lem_sets_trans(d0.clause@, d.clause@, d2.clause@);
}
/// the clause of an entry of p's watch list
pub proof fn lem_entry(a: AssignStack, d: ClauseDB, p: Lit, fl: Lit, i: int)
    requires ready(a, d), taken(a, d, p, fl), 0 <= i < d.watch_cache@[p.ord() as int]@.len()
    ensures ({ let e = d.watch_cache@[p.ord() as int]@[i]; let s = d.lits(e.0);
        &&& live(d.clause@, e.0) && s.len() >= 3 && (s[0] == fl || s[1] == fl) && s[0] != s[1] && legal(s, d.nl()) && a.reads(s)
        &&& a.lit_ok(e.1) && (s.contains(e.1) || fls(a, e.1)) && d.clause@[e.0.ord() as int].search_from >= 2 }) {
    reveal(blockers_ok); let w = p.ord() as int; let e = d.watch_cache@[w]@[i]; let s = d.lits(e.0);
    assert(has_cid(d.watch_cache@[w]@, e.0)); assert(watched(d.clause@, w, e.0));
    assert(legal(s, d.nl())); assert(a.reads(d.clause@[e.0.ord() as int].lits@));
    lem_neg_props(s[0]); lem_neg_props(s[1]); lem_ord_eq(s[0].neg(), p); lem_ord_eq(s[1].neg(), p);
    assert(s[0].var() != s[1].var());
}
/// the entry keeps its place and its clause, its blocker may be replaced by another literal of the clause
pub proof fn lem_go_restore(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, p: Lit, fl: Lit, n: int, op: Option<Lit>)
    requires going(a0, d0, a, d), taken(a, d, p, fl), 0 <= n < d.watch_cache@[p.ord() as int]@.len(), d2.index_ok(), d2 == (ClauseDB { watch_cache: d2.watch_cache, ..d }), d2.nl() == d.nl(),
        forall|w: int| 0 <= w < d.nl() && w != p.ord() ==> #[trigger] d2.watch_cache@[w] == d.watch_cache@[w],
        d2.watch_cache@[p.ord() as int]@.len() == d.watch_cache@[p.ord() as int]@.len(), forall|i: int| 0 <= i < d.watch_cache@[p.ord() as int]@.len() ==> (#[trigger] d2.watch_cache@[p.ord() as int]@[i]).0 == d.watch_cache@[p.ord() as int]@[i].0,
        forall|i: int| 0 <= i < d.watch_cache@[p.ord() as int]@.len() && i != n ==> #[trigger] d2.watch_cache@[p.ord() as int]@[i] == d.watch_cache@[p.ord() as int]@[i],
        d2.watch_cache@[p.ord() as int]@[n].1 == (if op.is_some() { op.unwrap() } else { d.watch_cache@[p.ord() as int]@[n].1 }),
        op.is_some() ==> d.lits(d.watch_cache@[p.ord() as int]@[n].0).contains(op.unwrap())
    ensures going(a0, d0, a, d2), taken(a, d2, p, fl), winv(a, d, fl, n, 0) ==> winv(a, d2, fl, n + 1, d.watch_cache@[p.ord() as int]@[n].0.ord() as int) {
    let c = d.watch_cache@[p.ord() as int]@[n].0;
    lem_entry(a, d, p, fl, n);
    lem_set_refl(d.lits(c));
    assert(reordered(d, d2, c)) by {
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; e.0.ord() < d2.clause@.len() && d2.lits(e.0).contains(e.1) && live(d2.clause@, e.0) || d.watch_cache@[w]@.contains(e) } by {
            let e = d2.watch_cache@[w]@[j];
            if w == p.ord() && j == n && op.is_some() { assert(e.0 == c); } else { assert(d.watch_cache@[w]@[j] == e); }
        }
    }
    lem_go_reorder(a0, d0, a, d, d2, c);
    if winv(a, d, fl, n, 0) { lem_w_next(a, d, d2, fl, n); }
}
/// ... and its clause has a true literal
pub proof fn lem_w_true(a: AssignStack, d: ClauseDB, p: Lit, fl: Lit, n: int, c: ClauseId, x: Lit)
    requires ready(a, d), taken(a, d, p, fl), winv(a, d, fl, n, c.ord() as int), live(d.clause@, c), d.lits(c).contains(x), tru(a, x)
    ensures winv(a, d, fl, n, 0) {
    lem_has(a, d, c, x); lem_level_max(a, x);
    assert(covered(a, d.lits(c), fl)); lem_w_done(a, d, fl, n, c);
}
/// the clause watches another literal instead of fl
pub proof fn lem_go_move(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, p: Lit, fl: Lit, n: int, pos: int, k: int)
    requires going(a0, d0, a, d), taken(a, d, p, fl), 0 <= n < d.watch_cache@[p.ord() as int]@.len(), d2.wf(), d2 == (ClauseDB { clause: d2.clause, watch_cache: d2.watch_cache, ..d }), d2.nl() == d.nl(), 0 <= pos < 2,
        ({ let c = d.watch_cache@[p.ord() as int]@[n].0; let s = d.lits(c);
            &&& 2 <= k < s.len() && s[pos] == fl && !fls(a, s[k]) && d2.lits(c) == s.update(pos, s[k]).update(k, s[pos])
            &&& d2.clause@.len() == d.clause@.len() && (forall|j: int| 0 <= j < d.clause@.len() && j != c.ord() ==> #[trigger] d2.clause@[j] == d.clause@[j]) && d2.clause@[c.ord() as int].flags == d.clause@[c.ord() as int].flags && d2.clause@[c.ord() as int].search_from >= 2
            &&& forall|w: int| 0 <= w < d.nl() ==> (#[trigger] d2.watch_cache@[w])@ == (if w == p.ord() { gone_at(d.watch_cache@[w]@, n) } else if w == s[k].neg().ord() { d.watch_cache@[w]@.push((c, s[1 - pos])) } else { d.watch_cache@[w]@ }) })
    ensures going(a0, d0, a, d2), taken(a, d2, p, fl), winv(a, d, fl, n, 0) ==> winv(a, d2, fl, n, 0) {
    let c = d.watch_cache@[p.ord() as int]@[n].0; let s = d.lits(c); let t = d2.lits(c); let w0 = p.ord() as int; let ls = d.watch_cache@[w0]@;
    lem_entry(a, d, p, fl, n);
    lem_swap_set(s, pos, k);
    assert(t[pos] == s[k] && t[1 - pos] == s[1 - pos] && t[k] == s[pos]);
    assert(t.contains(s[1 - pos])) by { assert(t[1 - pos] == s[1 - pos]); }
    assert(reordered(d, d2, c)) by {
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; e.0.ord() < d2.clause@.len() && d2.lits(e.0).contains(e.1) && live(d2.clause@, e.0) || d.watch_cache@[w]@.contains(e) } by {
            let e = d2.watch_cache@[w]@[j]; let u = d.watch_cache@[w]@;
            if w == w0 { let r = gone_at(u, n); assert(r[j] == e); if j == n { assert(u[u.len() - 1] == e); } else { assert(u[j] == e); } }
            else if w == s[k].neg().ord() { if j < u.len() { assert(u[j] == e); } else { assert(e == (c, s[1 - pos])); } }
            else { assert(u[j] == e); }
        }
    }
    lem_go_reorder(a0, d0, a, d, d2, c);
    assert(t[0] != fl && t[1] != fl);
    assert forall|e: ClauseId| #[trigger] exempt(ls, n, 0, e) implies exempt(d2.watch_cache@[w0]@, n, 0, e) || e.ord() == c.ord() && t[0] != fl && t[1] != fl by { if e != c && later(ls, n, e) { lem_later_gone(ls, n, e); } }
    assert forall|q: int| 0 <= q < 2 implies { let l = #[trigger] t[q]; !fls(a, l) || l == s[0] || l == s[1] } by { if q != pos { assert(q == 1 - pos); } }
    if winv(a, d, fl, n, 0) { lem_w_reorder(a, d, d2, c, fl, n, 0, 0); }
}
pub proof fn lem_swap_set(s: Seq<Lit>, i: int, k: int) requires 0 <= i < s.len(), 0 <= k < s.len() ensures same_set(s, s.update(i, s[k]).update(k, s[i])) {
    let t = s.update(i, s[k]).update(k, s[i]);
    assert forall|l: Lit| #[trigger] s.contains(l) == t.contains(l) by {
        if s.contains(l) { let j = choose|j: int| 0 <= j < s.len() && s[j] == l; let h = if j == i { k } else if j == k { i } else { j }; assert(t[h] == l); }
        if t.contains(l) { let j = choose|j: int| 0 <= j < t.len() && t[j] == l; let h = if j == i { k } else if j == k { i } else { j }; assert(s[h] == l); }
    }
}
/// the watched literals change places
pub proof fn lem_go_swap(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, p: Lit, fl: Lit, n: int)
    requires going(a0, d0, a, d), taken(a, d, p, fl), 0 <= n < d.watch_cache@[p.ord() as int]@.len(), d2.wf(),
        ({ let c = d.watch_cache@[p.ord() as int]@[n].0; let s = d.lits(c); s[0] == fl && d2.lits(c) == s.update(0, s[1]).update(1, s[0]) && d2 == (ClauseDB { clause: d2.clause, ..d }) && d2.only_turned(&d, c) && d2.clause@[c.ord() as int] == (Clause { lits: d2.clause@[c.ord() as int].lits, ..d.clause@[c.ord() as int] }) })
    ensures going(a0, d0, a, d2), taken(a, d2, p, fl), winv(a, d, fl, n, 0) ==> winv(a, d2, fl, n, 0) {
    let c = d.watch_cache@[p.ord() as int]@[n].0; let s = d.lits(c); let t = d2.lits(c);
    lem_entry(a, d, p, fl, n); lem_swap_set(s, 0, 1);
    assert(reordered(d, d2, c)) by { assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; d.watch_cache@[w]@.contains(e) } by { assert(d.watch_cache@[w]@[j] == d2.watch_cache@[w]@[j]); } }
    lem_go_reorder(a0, d0, a, d, d2, c);
    assert forall|q: int| 0 <= q < 2 implies { let l = #[trigger] t[q]; !fls(a, l) || l == s[0] || l == s[1] } by { }
    if winv(a, d, fl, n, 0) { lem_w_reorder(a, d, d2, c, fl, n, 0, 0); }
}
/// an entry of the link list of fl is the other literal of a two-literal clause
pub proof fn lem_link(a: AssignStack, d: ClauseDB, p: Lit, fl: Lit, k: int)
    requires ready(a, d), taken(a, d, p, fl), 0 <= k < d.binary_link.list@[fl.ord() as int]@.len()
    ensures ({ let o = d.binary_link.list@[fl.ord() as int]@[k].0; a.lit_ok(o) && paired(d.clause@, p.neg(), o) }) {
    let ls = d.binary_link.list@[fl.ord() as int]@; let e = ls[k];
    assert(has_lnk(ls, e.0, e.1)); assert(linked(d.clause@, fl.ord() as int, e.0, e.1)); assert(is_bi(d.clause@, e.1));
    let t = d.lits(e.1); lem_lits(a, d, e.1, 0); lem_lits(a, d, e.1, 1); lem_ord_eq(t[0], fl); lem_ord_eq(t[1], fl);
}
/// the parts of a list visited by `iter().skip(a)` and then `iter().skip(b).take(n)`
pub fn verif_chain(len: usize, a: usize, b: usize, n: usize) -> (r: Vec<usize>)
    requires b + n <= usize::MAX
    ensures forall|i: int| 0 <= i < r@.len() ==> (a <= #[trigger] r@[i] < len || b <= r@[i] < b + n && r@[i] < len),
        forall|k: usize| a <= k < len || b <= k < b + n && k < len ==> #[trigger] r@.contains(k)
{
    let mut r: Vec<usize> = Vec::new();
    let mut i = a;
    while i < len invariant a <= i, i <= len || r@.len() == 0, i == a || i <= len, forall|j: int| 0 <= j < r@.len() ==> a <= #[trigger] r@[j] < len, forall|k: usize| a <= k < i ==> #[trigger] r@.contains(k), decreases len - i {
        let ghost r0 = r@;
        r.push(i);
        proof { assert forall|k: usize| a <= k < i + 1 implies #[trigger] r@.contains(k) by { if k < i { assert(r0.contains(k)); let j = choose|j: int| 0 <= j < r0.len() && r0[j] == k; assert(r@[j] == k); } else { assert(r@[r0.len() as int] == k); } } }
        i += 1;
    }
    let end = b + n;
    let mut i = b;
    while i < end && i < len invariant b <= i <= end, end == b + n, forall|j: int| 0 <= j < r@.len() ==> (a <= #[trigger] r@[j] < len || b <= r@[j] < b + n && r@[j] < len), forall|k: usize| a <= k < len || b <= k < i ==> #[trigger] r@.contains(k), decreases len - i {
        let ghost r0 = r@;
        r.push(i);
        proof { assert forall|k: usize| a <= k < len || b <= k < i + 1 implies #[trigger] r@.contains(k) by { if r0.contains(k) { let j = choose|j: int| 0 <= j < r0.len() && r0[j] == k; assert(r@[j] == k); } else { assert(k == i); assert(r@[r0.len() as int] == k); } } }
        i += 1;
    }
    r
}
pub proof fn lem_best(a: AssignStack, a2: AssignStack)
    requires a.wf(), a.queue_ok(), a2 == (AssignStack { best_assign: a2.best_assign, num_best_assign: a2.num_best_assign, ..a })
    ensures a2.wf(), a2.queue_ok() {
    assert(a2.saved_ok()) by { assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies a2.lit_ok(#[trigger] a2.trail_saved@[i]) && a2.var@[a2.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(a.lit_ok(a.trail_saved@[i])); } }
    assert forall|v: int| 0 <= v < a2.var@.len() implies #[trigger] a2.same_var(&a, v) by {}
    a.lem_same(&a2);
    assert forall|v: int| #[trigger] a2.open_var(v) implies a2.kept(v) by { assert(a.open_var(v)); assert(a.kept(v)); if !a.var_order.has(v) { let i = choose|i: int| 0 <= i < a.trail_saved@.len() && #[trigger] a.trail_saved@[i].var() == v; assert(a2.trail_saved@[i].var() == v); } }
}
/// what the saved trail gives, in the middle of the propagation
pub proof fn lem_go_again(a0: AssignStack, d0: ClauseDB, a: AssignStack, a2: AssignStack, d: ClauseDB)
    requires going(a0, d0, a, d), going(a, d, a2, d), saved_just(a2, d.clause@), complete(a2, d.clause@)
    ensures going(a0, d0, a2, d), complete_below(a2, d.clause@) {
    reveal(follows);
    assert(a2.trail@.take(a0.trail@.len() as int) =~= a0.trail@) by { assert forall|i: int| 0 <= i < a0.trail@.len() implies a2.trail@[i] == a0.trail@[i] by { assert(a2.trail@.take(a.trail@.len() as int)[i] == a.trail@[i]); assert(a.trail@.take(a0.trail@.len() as int)[i] == a0.trail@[i]); } }
    assert forall|v: int| 1 <= v <= a0.nv() && a0.var@[v].assign.is_some() implies (#[trigger] a2.var@[v]).assign == a0.var@[v].assign && a2.var@[v].level == a0.var@[v].level && a2.var@[v].reason == a0.var@[v].reason by { assert(a.var@[v].assign == a0.var@[v].assign); }
    assert forall|v: int| 1 <= v <= a0.nv() && a0.var@[v].assign.is_none() && (#[trigger] a2.var@[v]).assign.is_some() implies a2.var@[v].level == a2.trail_lim@.len() by { if a.var@[v].assign.is_some() { assert(a.var@[v].level == a.trail_lim@.len()); assert(a2.var@[v].level == a.var@[v].level); } }
    assert(follows(a0, d.clause@, a2)) by { assert forall|m: Val| sat_all(m, d.clause@) && #[trigger] agrees(m, a0) implies agrees(m, a2) by { assert(agrees(m, a)); } }
    lem_complete_below(a2, d);
}
pub fn verif_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
"""

REUSE = r"""requires ready(*old(self), *cdb), saved_just(*old(self), cdb.clause@)
    ensures going(*old(self), *cdb, *final(self), *cdb), saved_just(*final(self), cdb.clause@), final(self).q_head == old(self).q_head, complete(*old(self), cdb.clause@) ==> complete(*final(self), cdb.clause@),
        r matches Err((l, why)) ==> conflict_ok(*final(self), cdb.clause@, l, why)"""
PROP = r"""requires ready(*old(self), *old(cdb)), complete(*old(self), old(cdb).clause@), saved_just(*old(self), old(cdb).clause@)
    ensures going(*old(self), *old(cdb), *final(self), *final(cdb)),
        r.is_ok() ==> final(self).q_head == final(self).trail@.len() && complete(*final(self), final(cdb).clause@),
        r matches Err((l, why)) ==> conflict_ok(*final(self), final(cdb).clause@, l, why) && complete_below(*final(self), final(cdb).clause@)"""
SANDBOX = r"""requires ready(*old(self), *old(cdb))
    ensures going(*old(self), *old(cdb), *final(self), *final(cdb)),
        r.is_ok() ==> final(self).q_head == final(self).trail@.len() && (complete(*old(self), old(cdb).clause@) ==> complete(*final(self), final(cdb).clause@)),
        r matches Err((l, why)) ==> conflict_ok(*final(self), final(cdb).clause@, l, why) && (complete(*old(self), old(cdb).clause@) ==> complete_below(*final(self), final(cdb).clause@))"""


def unit():
    u = Unit("prop")
    u_cdb.types(u)
    u.text(DEFS)
    u.text(LEM)
    u.text(SPEC2)
    A, D = u_assign.unit(), u_cdb.unit()
    u.uses(A, ["AssignStack::assign_by_implication", "AssignStack::decision_level", "AssignStack::insert_heap", "AssignStack::clear_saved_trail", "AssignStack::truncate_trail_saved", "AssignStack::assigned"])
    u.uses(D, ["Clause::is_dead", "Clause::lit0", "Clause::lit1", "ClauseDB::at", "ClauseDB::at_mut", "ClauseDB::detach_watch_cache", "ClauseDB::transform_by_updating_watch", "ClauseDB::transform_by_restoring_watch_cache", "ClauseDB::swap_watch",
               "ClauseDB::watch_cache_iter", "ClauseDB::fetch_watch_cache_entry", "WatchCacheIterator::next", "BinaryLinkDB::connect_with"])
    f = u.fn
    f("cdb::db", "impl ClauseDBIF for ClauseDB", "binary_links", into="ClauseDB", spec="requires l.ord() < self.binary_link.list@.len(), ensures *r == self.binary_link.list@[l.ord() as int]")
    T, P = "assign::trail_saving", "assign::propagate"
    stat = "statistics counter"
    f(T, "impl TrailSavingIF for AssignStack", "reuse_saved_trail", into="AssignStack", nloops=1, spec=REUSE,
      subst=CDBSIG + [("let q = $$e ;", "let q = verif_any :: < u16 > ( ) ;", 1),
          ("return self . truncate_trail_saved ( $$e ) ;", "let verif_r = self . truncate_trail_saved ( $$e ) ; return verif_r ;", 2),
          ("let _ = self . truncate_trail_saved ( $$e ) ;", "self . truncate_trail_saved ( $$e ) ;", 2)] + AT,
      drop=[("self . num_repropagation += 1 ;", "", stat)],
      pre="let ghost a0 = *self; proof { self.lem_levels(); lem_go_start(*self, *cdb); }",
      loops={0: {"inv": """invariant a0 == *old(self), going(a0, *cdb, *self, *cdb), saved_just(*self, cdb.clause@), i_rev <= self.trail_saved@.len(), self.trail_saved == a0.trail_saved, dl == self.trail_lim@.len(), self.q_head == a0.q_head,
            complete(a0, cdb.clause@) ==> complete(*self, cdb.clause@), forall|k: int| i_rev <= k < self.trail_saved@.len() ==> tru(*self, #[trigger] self.trail_saved@[k]),
        decreases i_rev,""",
        "top": "let ghost sa = *self; proof { assert(self.lit_ok(self.trail_saved@[i_rev - 1])); lem_saved_use(*self, *cdb, i_rev - 1); }",
        "bottom": """proof { if self.trail@ != sa.trail@ { lem_go_step(a0, *cdb, sa, *self, *cdb, lit, old_reason); lem_step_saved(sa, *self, *cdb, lit, old_reason); }
            assert forall|k: int| i_rev <= k < self.trail_saved@.len() implies tru(*self, #[trigger] self.trail_saved@[k]) by { assert(self.lit_ok(self.trail_saved@[k])); if k > i_rev { assert(tru(sa, sa.trail_saved@[k])); } } }"""}},
      ghost=[("after", "self . insert_heap ( vi ) ;", "let ghost sb = *self; proof { sa.lem_queue_grew(self); }", 0), ("after", "self . insert_heap ( vi ) ;", "let ghost sb = *self; proof { sa.lem_queue_grew(self); }", 1),
        ("before", "return verif_r", "proof { sb.lem_truncate(self, i_rev + 1); lem_queue_ready(sa, *self, *cdb); lem_cut_saved(sa, *self, cdb.clause@, i_rev + 1); }", 0), ("before", "return verif_r", "proof { sb.lem_truncate(self, i_rev + 1); lem_queue_ready(sa, *self, *cdb); lem_cut_saved(sa, *self, cdb.clause@, i_rev + 1); }", 1),
        ("before", "self . clear_saved_trail", "let ghost sc = *self; proof { sa.lem_truncate(self, i_rev + 1); }", 0), ("before", "self . clear_saved_trail", "let ghost sc = *self; proof { sa.lem_truncate(self, i_rev + 1); }", 1),
        ("before", "return Err", "proof { sc.lem_cleared(self); lem_queue_ready(sa, *self, *cdb); lem_no_saved(*self, cdb.clause@); assert(conflict_ok(sa, cdb.clause@, lit, old_reason)); }", 0),
        ("before", "return Err", "proof { sc.lem_cleared(self); lem_queue_ready(sa, *self, *cdb); lem_no_saved(*self, cdb.clause@); assert(conflict_ok(sa, cdb.clause@, cdb.lits(cid)[0], old_reason)); }", 1),
        ("before", "self . trail_saved . clear", "let ghost se = *self;", 0), ("after", "self . trail_saved . clear ( ) ;", "proof { assert(self.trail_saved@ =~= se.trail_saved@.take(0)); se.lem_truncate(self, 0); lem_queue_ready(se, *self, *cdb); lem_no_saved(*self, cdb.clause@); }", 0)])
    LINKS = "for verif_k in 0 .. cdb . binary_links ( false_lit ) . len ( ) { let ( blocker , %s ) = cdb . binary_links ( false_lit ) [ verif_k ] ;"
    CORE = CDBSIG + [
        ("macro_rules ! $n $b", ""),
        ("if let cc @ Err ( _ ) = $$e {", "let cc = $$e ; if cc . is_err ( ) {"),
        ("while let Some ( p ) = self . trail . get ( $$e ) {", "while ( $$e ) < self . trail . len ( ) { let p = & self . trail [ $$e ] ;", 1),
        ("Lit :: from ( usize :: from ( * p ) )", "( * p )"),
        ("for ( blocker , cid ) in cdb . binary_links ( $$l ) . iter ( ) . copied ( ) {", "for verif_k in 0 .. cdb . binary_links ( $$l ) . len ( ) { let ( blocker , cid ) = cdb . binary_links ( $$l ) [ verif_k ] ;"),
        ("for ( blocker , _ ) in cdb . binary_links ( $$l ) . iter ( ) . copied ( ) {", "for verif_k in 0 .. cdb . binary_links ( $$l ) . len ( ) { let ( blocker , _ ) = cdb . binary_links ( $$l ) [ verif_k ] ;"),
        ("while let Some ( ( cid , mut cached ) ) = source . next ( ) . map ( | index | $$e ) {", "loop { let verif_n = source . next ( ) ; if verif_n . is_none ( ) { break ; } let index = verif_n . unwrap ( ) ; let ( cid , mut cached ) = $$e ;", 1),
        ("for ( k , lk ) in c . iter ( ) . enumerate ( ) . skip ( $$a ) . chain ( c . iter ( ) . enumerate ( ) . skip ( $$b ) . take ( $$n ) ) {", "let verif_o = verif_chain ( c . lits . len ( ) , $$a , $$b , $$n ) ; for verif_j in 0 .. verif_o . len ( ) { let k = verif_o [ verif_j ] ; let lk = & c . lits [ k ] ;", 1),
        ("Some ( false ) => return Err ( $$x ) ,", "Some ( false ) => { return Err ( $$x ) ; }"),
        ("if false { $$x } else { $$y }", "$$y"),
        ("( $$x ) . min ( $$y ) as u16", "verif_min ( $$x , $$y ) as u16"),
        ("cdb [ cid ] . $f = $$e ;", "let verif_v = $$e ; cdb . at_mut ( cid ) . $f = verif_v ;"),
        ("let na = $$e ;", "let na = verif_any :: < usize > ( ) ;")] + AT
    DROP = [("self . num_propagation += 1 ;", "", stat), ("self . num_conflict += 1 ;", "", stat), ("self . num_reconflict += 1 ;", "", stat), ("self . dpc_ema . update ( $$x ) ;", "", "moving average"), ("self . ppc_ema . update ( $$x ) ;", "", "moving average")]
    GO0 = "full == complete(a0, d0.clause@), a0 == *old(self), d0 == *old(cdb), going(a0, d0, *self, *cdb), dl == self.trail_lim@.len(), "
    for name, sb in (("propagate", False), ("propagate_sandbox", True)):
        GO = GO0 + ("" if sb else "full, ")
        ghost = [
            ("after", "self . q_head += 1 ;", "let ghost a1 = *self; let ghost q1 = self.q_head; proof { lem_pop(aq, *self, *cdb); }"),
            ("before", "match match blocker", "proof { lem_link(*self, *cdb, propagating, false_lit, verif_k as int); }"),
            ("before", "return Err ( ( blocker", "proof { if full { lem_w_below(*self, *cdb, false_lit, -1, 0); } }") ,
            ("before", "let mut source", "proof { if full { lem_bi_done(*self, *cdb, false_lit); } }"),
            ("before", "if ( * cdb . at ( cid ) ) . is_dead" if sb else "let mut other_watch_value", "let ghost d1 = *cdb; let ghost s = d1.lits(cid); let ghost n = source.index as int; let ghost b0 = cached; let ghost src = source; proof { lem_entry(*self, d1, propagating, false_lit, n); }"),
            ("before", "continue 'next_clause", "proof { lem_go_restore(a0, d0, *self, d1, *cdb, propagating, false_lit, n, None); if full { lem_w_true(*self, *cdb, propagating, false_lit, n + 1, cid, b0); } }", 0),
            ("before", "continue 'next_clause", "proof { assert(s.contains(other)); lem_go_restore(a0, d0, *self, d1, *cdb, propagating, false_lit, n, Some(other)); if full { lem_w_true(*self, *cdb, propagating, false_lit, n + 1, cid, other); } }", 1),
            ("before", "cdb . detach_watch_cache", "proof { assert(once_w(cdb.watch_cache@[propagating.ord() as int]@)); }"),
            ("before", "cdb . transform_by_updating_watch", "proof { lem_neg_props(s[false_watch_pos as int]); lem_neg_props(s[k as int]); }"),
            ("before", "continue 'next_clause", """proof { lem_ord_eq(s[k as int].neg(), propagating); lem_neg_props(s[k as int]); lem_same_clauses(d2.clause@, cdb.clause@, cdb.watch_cache@, cdb.binary_link, cdb.freelist@); 
            assert(d1.watch_cache@[propagating.ord() as int]@[n].0 == cid);
            assert(2 <= k < s.len());
            assert(s[false_watch_pos as int] == false_lit);
            assert(!fls(*self, s[k as int]));
            assert(cdb.lits(cid) == s.update(false_watch_pos as int, s[k as int]).update(k as int, s[false_watch_pos as int]));
            assert(forall|j: int| 0 <= j < d1.clause@.len() && j != cid.ord() ==> #[trigger] cdb.clause@[j] == d1.clause@[j]);
            assert(cdb.clause@[cid.ord() as int].flags == d1.clause@[cid.ord() as int].flags);
            assert(cdb.clause@[cid.ord() as int].search_from >= 2);
            assert forall|w: int| 0 <= w < d1.nl() implies (#[trigger] cdb.watch_cache@[w])@ == (if w == propagating.ord() { gone_at(d1.watch_cache@[w]@, n) } else if w == s[k as int].neg().ord() { d1.watch_cache@[w]@.push((cid, s[1 - false_watch_pos])) } else { d1.watch_cache@[w]@ }) by { }
            lem_go_move(a0, d0, *self, d1, *cdb, propagating, false_lit, n, false_watch_pos as int, k as int); }""", 2),
            ("before", "let verif_v = verif_min", "let ghost d2 = *cdb;"),
            ("before", "if false_watch_pos == 0", "proof { assert forall|j: int| 2 <= j < s.len() implies fls(*self, #[trigger] s[j]) by { assert(verif_o@.contains(j as usize)); let i = choose|i: int| 0 <= i < verif_o@.len() && verif_o@[i] == j as usize; assert(fls(*self, s[verif_o@[i] as int])); } }"),
            ("after_stmt", "cdb . swap_watch ( cid )", "proof { lem_go_swap(a0, d0, *self, d1, *cdb, propagating, false_lit, n); }"),
            ("before", "cdb . transform_by_restoring_watch_cache ( propagating , & mut source , updated_cache )", "let ghost d3 = *cdb; let ghost s3 = d3.lits(cid); proof { assert(s3[0] == cached); assert(s3.contains(cached)); assert(self.lit_ok(cached)); assert(false_but(*self, s3, 0)); }"),
            ("after_stmt", "cdb . transform_by_restoring_watch_cache ( propagating , & mut source , updated_cache )", "proof { lem_go_restore(a0, d0, *self, d3, *cdb, propagating, false_lit, n, updated_cache); }"),
            ("before", "return Err ( ( cached", "proof { if full { lem_w_below(*self, *cdb, false_lit, n + 1, cid.ord() as int); } }"),
            ("before", "self . assign_by_implication ( cached", "let ghost a4 = *self; let ghost d4 = *cdb; proof { }"),
            ("after_stmt", "self . assign_by_implication ( cached", "proof { lem_go_step(a0, d0, a4, *self, d4, cached, AssignReason::Implication(cid)); if full { lem_w_true(*self, *cdb, propagating, false_lit, n + 1, cid, cached); } }"),
        ]
        loops = {
            0: {"inv": f"invariant {GO} full ==> complete(*self, cdb.clause@), " + ("" if sb else "saved_just(a0, d0.clause@), ") + "decreases self.nv() + 1 - self.q_head,", "top": "let ghost aq = *self; proof { aq.lem_levels(); }" },
            1: {"it": "it", "inv": f"invariant {GO} self.q_head == q1, taken(*self, *cdb, propagating, false_lit), full ==> winv(*self, *cdb, false_lit, -1, 0), it.iter.end == cdb.binary_link.list@[false_lit.ord() as int]@.len(), forall|j: int| 0 <= j < verif_k ==> tru(*self, (#[trigger] cdb.binary_link.list@[false_lit.ord() as int]@[j]).0),",
                "top": "let ghost ab = *self;",
                "bottom": "proof { if self.trail@ != ab.trail@ { lem_go_step(a0, d0, ab, *self, *cdb, blocker, AssignReason::BinaryLink(propagating)); } assert forall|j: int| 0 <= j < verif_k + 1 implies tru(*self, (#[trigger] cdb.binary_link.list@[false_lit.ord() as int]@[j]).0) by { lem_link(ab, *cdb, propagating, false_lit, j); } }"},
            2: {"inv": f"invariant {GO} self.q_head == q1, taken(*self, *cdb, propagating, false_lit), full ==> winv(*self, *cdb, false_lit, source.index as int, 0), source.index <= source.end_at, source.end_at == cdb.watch_cache@[propagating.ord() as int]@.len(), decreases source.end_at - source.index,", "attr": "#[verifier::loop_isolation(false)]",
                "after": "proof { if full { lem_w_end(*self, *cdb, false_lit, source.index as int); } }"},
            3: {"inv": "invariant *cdb == d1, source == src, forall|j: int| 0 <= j < verif_i0 ==> fls(*self, s[#[trigger] verif_o@[j] as int]), verif_s0 == verif_o@.len(), verif_i0 <= verif_s0, decreases verif_s0 - verif_i0,", "attr": "#[verifier::loop_isolation(false)]"},
        }
        if sb:
            ghost += [("before", "continue ;", "proof { assert(false); }")]
        else:
            ghost += [("before", "let verif_v = ( * cdb . at ( cid ) )", "let ghost d5 = *cdb;"), ("before", "self . assign_by_implication ( cached", "proof { lem_go_touch(a0, d0, *self, d5, *cdb); }")]
            ghost += [("before", "let na =", "let ghost an = *self;"), ("before", "Ok ( ( ) )", "proof { lem_best(an, *self); lem_queue_ready(an, *self, *cdb); assert(self.trail_saved@ =~= an.trail_saved@.take(an.trail_saved@.len() as int)); lem_cut_saved(an, *self, cdb.clause@, an.trail_saved@.len() as int); }")]
            ghost += [("before", "let cc =", "let ghost ar = *self;", i) for i in (0, 1)]
            ghost += [("after_stmt", "let cc =", "proof { lem_go_again(a0, d0, ar, *self, *cdb); }", i) for i in (0, 1)]
        f(P, "impl PropagateIF for AssignStack", name, into="AssignStack", nloops=4, subst=CORE, drop=DROP, spec=SANDBOX if sb else PROP,
          pre="let ghost a0 = *self; let ghost d0 = *cdb; let ghost full = complete(a0, d0.clause@); proof { self.lem_levels(); lem_go_start(*self, *cdb); }", loops=loops, ghost=ghost)
    return u
