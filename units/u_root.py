"""clearing what is fixed at level 0 out of the clauses (C06, C10, C14)"""
import u_assign
import u_cdb
import u_learn
import u_prop
import u_step
from clause import AT, CDBSIG
from unit import Unit

RLIMIT = 100

SPEC = r"""
// ---- at level 0
/// no variable of a clause is eliminated
#[verifier::opaque]
pub open spec fn clean(a: AssignStack, cs: Seq<Clause>) -> bool { forall|c: ClauseId, k: int| #![trigger cs[c.ord() as int].lits@[k]] live(cs, c) && 0 <= k < cs[c.ord() as int].lits@.len() ==> !a.gone(cs[c.ord() as int].lits@[k].var() as int) }
/// variables of the clauses before number n are open or on the trail from entry m on
#[verifier::opaque]
pub open spec fn tidy(a: AssignStack, cs: Seq<Clause>, n: int, m: int) -> bool { forall|c: ClauseId, k: int| #![trigger cs[c.ord() as int].lits@[k]] live(cs, c) && c.ord() < n && 0 <= k < cs[c.ord() as int].lits@.len() && a.value(cs[c.ord() as int].lits@[k].var() as int).is_some() ==> after(a, m, cs[c.ord() as int].lits@[k].var() as int) }
/// no literal of a clause is assigned
pub open spec fn cleared_out(a: AssignStack, cs: Seq<Clause>) -> bool { tidy(a, cs, cs.len() as int, a.trail@.len() as int) }
/// a is a0 with more assigned at level 0
pub open spec fn grown(a0: AssignStack, a: AssignStack) -> bool {
    &&& a.var@.len() == a0.var@.len() && a.num_vars == a0.num_vars && a.trail_lim@ == a0.trail_lim@ && a.trail@.len() >= a0.trail@.len() && a.eliminated == a0.eliminated
    &&& forall|v: int| 0 <= v < a0.var@.len() ==> (#[trigger] a.var@[v]).flags.ca_seen == a0.var@[v].flags.ca_seen && a.var@[v].flags.eliminated == a0.var@[v].flags.eliminated && (a.var@[v].level == a0.var@[v].level || a.var@[v].level == 0) && (1 <= v && a0.var@[v].assign.is_some() ==> a.var@[v].assign == a0.var@[v].assign)
}
/// between the steps of the clearing
pub open spec fn rooted(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB) -> bool {
    &&& ready(a, d) && a.trail_lim@.len() == 0 && clean(a, d.clause@) && grown(a0, a)
    &&& d.nl() == d0.nl() && d.clause@.len() == d0.clause@.len() && d.soft_limit == d0.soft_limit && d.lbd_temp == d0.lbd_temp
    &&& same_models(a0, d0.clause@, a, d.clause@) && as_lasting(a0, d0.clause@, a, d.clause@)
}
pub open spec fn rooted0(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB) -> bool {
    &&& ready(a, d) && clean(a, d.clause@) && a.var@.len() == a0.var@.len() && a.num_vars == a0.num_vars && a.trail_lim@.len() == 0 && a.eliminated == a0.eliminated
    &&& forall|v: int| 0 <= v < a0.var@.len() ==> (#[trigger] a.var@[v]).flags.ca_seen == a0.var@[v].flags.ca_seen && a.var@[v].flags.eliminated == a0.var@[v].flags.eliminated && (a.var@[v].level == a0.var@[v].level || a.var@[v].level == 0) && (1 <= v && a0.var@[v].assign.is_some() ==> a.var@[v].assign == a0.var@[v].assign)
    &&& d.nl() == d0.nl() && d.clause@.len() == d0.clause@.len() && d.soft_limit == d0.soft_limit && d.lbd_temp == d0.lbd_temp
    &&& same_models(a0, d0.clause@, a, d.clause@) && as_lasting(a0, d0.clause@, a, d.clause@)
}
/// what is assigned in a clause is on the trail
pub open spec fn untouched(a: AssignStack, cs: Seq<Clause>) -> bool { tidy(a, cs, cs.len() as int, 0) }
pub proof fn lem_rooted_start(a: AssignStack, d: ClauseDB) requires ready(a, d), a.trail_lim@.len() == 0, clean(a, d.clause@) ensures rooted(a, d, a, d) { }
pub proof fn lem_rooted_trans(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, d2: ClauseDB) requires rooted(a0, d0, a, d), rooted(a, d, a2, d2) ensures rooted(a0, d0, a2, d2) {
    lem_grown_trans(a0, a, a2); lem_models_trans(a0, d0.clause@, a, d.clause@, a2, d2.clause@); }
pub proof fn lem_shrunk_lasting(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, s: Seq<Lit>)
    requires ready(a, d), a.trail_lim@.len() == 0, shorter(d, d2, c, s), !d2.clause@[c.ord() as int].dead(), forall|x: Lit| #[trigger] d.lits(c).contains(x) && !s.contains(x) ==> fls(a, x), d2.clause@[c.ord() as int].flags.learnt ==> d.clause@[c.ord() as int].flags.learnt, s.len() <= d.lits(c).len()
    ensures as_lasting(a, d.clause@, a, d2.clause@) {
    let cs = d.clause@; let cs2 = d2.clause@; let k = c.ord() as int;
    assert(legal(d2.lits(c), d2.nl()));
    assert forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) && k < cs.len() && perm(cs[k]) implies satisfies(m, cs[k].lits@) by { lem_perm_lit(m, cs2, k); lem_as_sat(m, s, cs[k].lits@); }
    assert forall|m: Val| sat_all(m, cs) && #[trigger] agrees0(m, a) && !cs2[k].dead() implies satisfies(m, cs2[k].lits@) by { assert(satisfies(m, cs[k].lits@)); assert(holds(m, a, seq![])); lem_dropped_sat(m, a, d, c, s); }
    lem_lasting_but(a, cs, cs2, k);
}
/// there is no model
pub open spec fn hopeless(a: AssignStack, cs: Seq<Clause>) -> bool { forall|m: Val| !#[trigger] holds(m, a, cs) }
pub proof fn lem_entries_refl(a: Seq<Vec<(ClauseId, Lit)>>, c: ClauseId, s: Seq<Lit>) ensures entries_from(a, a, c, s) { assert forall|w: int, j: int| #![trigger a[w]@[j]] 0 <= w < a.len() && 0 <= j < a[w]@.len() implies a[w]@.contains(a[w]@[j]) || a[w]@[j].0 == c && s.contains(a[w]@[j].1) by { let t = a[w]@; assert(t.contains(t[j])); } }
/// one step of the sweep
pub proof fn lem_swept(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, r: RefClause, m: int)
    requires rooted(a0, d0, a, d), live(d.clause@, c), d2.wf(), tidy(a, d.clause@, c.ord() as int, m),
        r is Dead == some_true(a, d.lits(c)), r is EmptyClause ==> false, r is UnitClause ==> false,
        r is Dead ==> d2.removed(&d, c) && entries_from(d.watch_cache@, d2.watch_cache@, c, Seq::<Lit>::empty()),
        r matches RefClause::RegisteredClause(e) ==> d2.removed(&d, c) && entries_from(d.watch_cache@, d2.watch_cache@, c, Seq::<Lit>::empty()) && live(d.clause@, e) && e != c && same_pair(d.lits(e), d.lits(c).filter(is_open(a))),
        r is Clause ==> d2.live(c) && d2.lits(c) == d.lits(c).filter(is_open(a)) && (d2.intact(&d) || (d2.clause@[c.ord() as int].flags.learnt ==> d.clause@[c.ord() as int].flags.learnt) && d2.lits(c).len() <= d.lits(c).len() && d2.rewritten(&d, c, d.lits(c).filter(is_open(a))) && entries_from(d.watch_cache@, d2.watch_cache@, c, d2.lits(c)) && d2.clause@[c.ord() as int].search_from == d.clause@[c.ord() as int].search_from)
    ensures rooted(a0, d0, a, d2), tidy(a, d2.clause@, c.ord() as int + 1, m) {
    let s = d.lits(c).filter(is_open(a)); let cs = d.clause@; let cs2 = d2.clause@;
    if !(r is Dead) { lem_open_part(a, d, c, s); }
    if r is Clause {
        if d2.intact(&d) { lem_entries_refl(d.watch_cache@, c, s); }
        assert(shorter(d, d2, c, s)); lem_shorter_ready(a, d, d2, c, s, 0, m); lem_shortened_models(a, d, d2, c, s);
        if d2.intact(&d) { assert(cs2 =~= cs); } else { lem_shrunk_lasting(a, d, d2, c, s); }
    } else {
        assert(shorter(d, d2, c, seq![])); lem_shorter_ready(a, d, d2, c, seq![], 0, m);
        if r is Dead { lem_satisfied(a, d, d2, c); } else if let RefClause::RegisteredClause(e) = r { lem_doubled(a, d, d2, c, e, s); }
    }
    lem_models_trans(a0, d0.clause@, a, cs, a, cs2);
}
pub proof fn lem_open_lit(a: AssignStack, d: ClauseDB, c: ClauseId, l: Lit) requires ready(a, d), clean(a, d.clause@), live(d.clause@, c), !some_true(a, d.lits(c)), d.lits(c).filter(is_open(a)) =~= seq![l] ensures a.lit_ok(l), a.value(l.var() as int).is_none() {
    let s = d.lits(c).filter(is_open(a)); lem_open_part(a, d, c, s); assert(s[0] == l); assert(s.contains(l)); lem_has(a, d, c, l); }
/// all literals of c are false
pub proof fn lem_emptied(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, c: ClauseId) requires rooted(a0, d0, a, d), live(d.clause@, c), !some_true(a, d.lits(c)), d.lits(c).filter(is_open(a)).len() == 0 ensures hopeless(a0, d0.clause@) {
    lem_open_part(a, d, c, d.lits(c).filter(is_open(a))); lem_all_gone(a, d, c); lem_hopeless(a0, d0.clause@, a, d.clause@); }
/// all but l are false: l has been fixed (d2 is d but for the log), the clause removed
pub proof fn lem_fixed_step(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, c: ClauseId, l: Lit, a2: AssignStack, d2: ClauseDB, d3: ClauseDB, m: int)
    requires rooted(a0, d0, a, d), live(d.clause@, c), !some_true(a, d.lits(c)), d.lits(c).filter(is_open(a)) =~= seq![l], a.asserts(&a2, l), a2.wf(), a2.queue_ok(), 0 <= m <= a.trail@.len(),
        d2 == (ClauseDB { clause: d2.clause, certification_store: d2.certification_store, ..d }), d2.clause@ == d.clause@, d2.wf(),
        d3.wf(), d3.removed(&d2, c), entries_from(d2.watch_cache@, d3.watch_cache@, c, Seq::<Lit>::empty()), tidy(a, d.clause@, c.ord() as int, m)
    ensures rooted(a0, d0, a2, d3), tidy(a2, d3.clause@, c.ord() as int + 1, m) {
    let s = d.lits(c).filter(is_open(a)); lem_open_part(a, d, c, s); assert(s[0] == l); assert(s.contains(l)); lem_has(a, d, c, l);
    assert forall|x: Lit| #[trigger] d.lits(c).contains(x) && x != l implies fls(a, x) by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; } }
    assert(stepped(a, a2, l, AssignReason::None));
    lem_unit_fixed(a, a2, d, c, l, m);
    assert(ready(a2, d2)) by { reveal(blockers_ok); }
    assert(shorter(d2, d3, c, seq![])); lem_shorter_ready(a2, d2, d3, c, seq![], 0, m);
    assert(some_true(a2, d2.lits(c))) by { let t = d2.lits(c); let i = choose|i: int| 0 <= i < t.len() && t[i] == l; assert(a2.lit_value(t[i]) == Some(true)); }
    lem_satisfied(a2, d2, d3, c);
    lem_grown_trans(a0, a, a2);
    lem_models_trans(a0, d0.clause@, a, d.clause@, a2, d.clause@); lem_models_trans(a0, d0.clause@, a2, d.clause@, a2, d3.clause@);
}
/// the trail is emptied
pub proof fn lem_wiped(a: AssignStack, a2: AssignStack, d: ClauseDB, full: bool)
    requires ready(a, d), a.trail_lim@.len() == 0, clean(a, d.clause@), a2 == (AssignStack { trail: a2.trail, q_head: 0, ..a }), a2.trail@.len() == 0, full ==> complete(a, d.clause@) && a.q_head == a.trail@.len()
    ensures ready(a2, d), clean(a2, d.clause@), same_models(a, d.clause@, a2, d.clause@), as_lasting(a, d.clause@, a2, d.clause@), full ==> complete(a2, d.clause@) {
    let cs = d.clause@;
    assert(a2.wf()) by {
        assert(a2.trail_ok()) by { assert forall|v: int| 1 <= v <= a2.nv() && (#[trigger] a2.var@[v]).assign.is_some() && !a2.on_trail(v) implies a2.var@[v].level == 0 by { a.lem_level0(v); } }
        assert forall|i: int| 0 <= i < a2.trail_saved@.len() implies a2.lit_ok(#[trigger] a2.trail_saved@[i]) && a2.var@[a2.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(a.lit_ok(a.trail_saved@[i])); } }
    assert(a2.queue_ok()) by { assert forall|v: int| #[trigger] a2.open_var(v) implies a2.kept(v) by { assert(a.open_var(v)); assert(a.kept(v)); if a.saved(v) { let i = choose|i: int| 0 <= i < a.trail_saved@.len() && #[trigger] a.trail_saved@[i].var() == v; assert(a2.trail_saved@[i].var() == v); } } }
    lem_root_expl(a2, cs);
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); assert forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() implies { let e = d.watch_cache@[w]@[j]; a2.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a2, e.1) && lev(a2, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(a.lit_ok(e.1)); } }
    assert(clean(a2, cs)) by { reveal(clean); }
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a2, cs) by { }
    assert(more_root(a, a2)) by { assert forall|m: Val| #[trigger] agrees0(m, a2) implies agrees0(m, a) by { } }
    lem_lasting_same(a, cs, a2);
    if full { reveal(complete); assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 implies fine(a2, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by {
        let x = cs[c.ord() as int].lits@[p]; let s = cs[c.ord() as int].lits@; assert(fine(a, s, x)); assert(!pend(a, x.var() as int));
        if fls(a2, x) { assert(covered(a, s, x)); let y = choose|y: Lit| #[trigger] s.contains(y) && tru(a, y) && lev(a, y) <= lev(a, x); assert(tru(a2, y)); } } }
}
pub proof fn lem_level_none(a: AssignStack, x: Lit) requires a.wf(), a.trail_lim@.len() == 0, a.lit_ok(x), a.value(x.var() as int).is_some() ensures lev(a, x) == 0 { a.lem_level0(x.var() as int); }
/// a literal fixed at level 0 has its value in every model
pub proof fn lem_fixed(m: Val, a: AssignStack, cs: Seq<Clause>, x: Lit) requires a.wf(), a.trail_lim@.len() == 0, a.lit_ok(x), holds(m, a, cs) ensures tru(a, x) ==> vtrue(m, x), fls(a, x) ==> !vtrue(m, x) {
    let v = x.var() as int; if a.value(v).is_some() { a.lem_level0(v); assert(a.var@[v].assign.is_some()); } }
pub proof fn lem_root_expl(a: AssignStack, cs: Seq<Clause>) requires a.wf(), a.trail_lim@.len() == 0 ensures all_explained(a, cs) {
    reveal(all_explained); assert forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 implies #[trigger] explained(a, cs, i) by { assert(a.lev_at(i)); } }
/// a clause has been replaced by a part of it, or removed
pub open spec fn shorter(d: ClauseDB, d2: ClauseDB, c: ClauseId, s: Seq<Lit>) -> bool {
    &&& live(d.clause@, c) && d2.wf() && d2.kept_but(&d, c.ord() as int) && d2.clause@.len() == d.clause@.len() && d2.soft_limit == d.soft_limit && d2.lbd_temp == d.lbd_temp
    &&& entries_from(d.watch_cache@, d2.watch_cache@, c, s)
    &&& d2.clause@[c.ord() as int].dead() && s.len() == 0 || d2.lits(c) == s && (d2.clause@[c.ord() as int].search_from == d.clause@[c.ord() as int].search_from || d2.clause@[c.ord() as int].search_from == 2)
    &&& forall|x: Lit| #[trigger] s.contains(x) ==> d.lits(c).contains(x)
}
pub proof fn lem_shorter_ready(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, s: Seq<Lit>, n: int, m: int)
    requires ready(a, d), a.trail_lim@.len() == 0, clean(a, d.clause@), shorter(d, d2, c, s), d2.clause@[c.ord() as int].dead() || forall|x: Lit| #[trigger] d.lits(c).contains(x) && !s.contains(x) ==> fls(a, x),
        from_ok(d2.clause@)
    ensures ready(a, d2), clean(a, d2.clause@), tidy(a, d.clause@, n, m) ==> tidy(a, d2.clause@, n, m), tidy(a, d.clause@, c.ord() as int, m) && (forall|x: Lit| #[trigger] s.contains(x) ==> a.value(x.var() as int).is_none()) ==> tidy(a, d2.clause@, c.ord() as int + 1, m) {
    let cs = d.clause@; let cs2 = d2.clause@; let k = c.ord() as int;
    lem_root_expl(a, cs2);
    assert forall|e: ClauseId| #[trigger] live(cs2, e) && e.ord() != k implies live(cs, e) && cs2[e.ord() as int] == cs[e.ord() as int] by { }
    assert forall|x: Lit| #[trigger] s.contains(x) implies a.lit_ok(x) by { lem_has(a, d, c, x); }
    assert(d2.readable(a)) by { assert forall|j: int| 0 <= j < cs2.len() implies a.reads((#[trigger] cs2[j]).lits@) by { if j != k { assert(cs2[j] == cs[j]); assert(a.reads(cs[j].lits@)); } else if cs2[k].dead() { } else { assert forall|i: int| 0 <= i < s.len() implies a.lit_ok(#[trigger] s[i]) by { assert(s.contains(s[i])); } } } }
    assert(blockers_ok(a, d2)) by { reveal(blockers_ok);
        assert forall|w: int, j: int| #![trigger d2.watch_cache@[w]@[j]] 0 <= w < d2.nl() && 0 <= j < d2.watch_cache@[w]@.len() implies { let e = d2.watch_cache@[w]@[j]; a.lit_ok(e.1) && (d2.lits(e.0).contains(e.1) || fls(a, e.1) && lev(a, e.1) == 0) } by {
            let e = d2.watch_cache@[w]@[j];
            assert(has_cid(d2.watch_cache@[w]@, e.0)); assert(watched(cs2, w, e.0));
            if d.watch_cache@[w]@.contains(e) {
                let i = choose|i: int| 0 <= i < d.watch_cache@[w]@.len() && d.watch_cache@[w]@[i] == e; assert(d.watch_cache@[w]@[i] == e);
                if e.0.ord() == k { if d.lits(c).contains(e.1) && !s.contains(e.1) { lem_level_none(a, e.1); } } else { assert(cs2[e.0.ord() as int] == cs[e.0.ord() as int]); }
            } } }
    assert(clean(a, cs2)) by { reveal(clean);
        assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && 0 <= i < cs2[e.ord() as int].lits@.len() implies !a.gone(cs2[e.ord() as int].lits@[i].var() as int) by {
            if e.ord() == k { assert(s.contains(s[i])); let h = choose|h: int| 0 <= h < cs[k].lits@.len() && cs[k].lits@[h] == s[i]; assert(!a.gone(cs[c.ord() as int].lits@[h].var() as int)); } else { assert(cs[e.ord() as int] == cs2[e.ord() as int]); } } }
    if tidy(a, cs, n, m) { reveal(tidy);
        assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && e.ord() < n && 0 <= i < cs2[e.ord() as int].lits@.len() && a.value(cs2[e.ord() as int].lits@[i].var() as int).is_some() implies after(a, m, cs2[e.ord() as int].lits@[i].var() as int) by {
            if e.ord() == k { assert(s.contains(s[i])); let h = choose|h: int| 0 <= h < cs[k].lits@.len() && cs[k].lits@[h] == s[i]; assert(after(a, m, cs[c.ord() as int].lits@[h].var() as int)); } else { assert(cs[e.ord() as int] == cs2[e.ord() as int]); } } }
    if tidy(a, cs, k, m) && (forall|x: Lit| #[trigger] s.contains(x) ==> a.value(x.var() as int).is_none()) { reveal(tidy);
        assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && e.ord() < k + 1 && 0 <= i < cs2[e.ord() as int].lits@.len() && a.value(cs2[e.ord() as int].lits@[i].var() as int).is_some() implies after(a, m, cs2[e.ord() as int].lits@[i].var() as int) by {
            if e.ord() == k { assert(s.contains(s[i])); } else { assert(cs[e.ord() as int] == cs2[e.ord() as int]); } } }
}
/// nothing to do for number k: it is dead
pub proof fn lem_tidy_skip(a: AssignStack, cs: Seq<Clause>, k: int, m: int) requires tidy(a, cs, k, m), 0 <= k < cs.len(), cs[k].dead() ensures tidy(a, cs, k + 1, m) { reveal(tidy); }
/// the literals that stay
pub proof fn lem_open_part(a: AssignStack, d: ClauseDB, c: ClauseId, s: Seq<Lit>)
    requires ready(a, d), clean(a, d.clause@), live(d.clause@, c), s == d.lits(c).filter(is_open(a)), !some_true(a, d.lits(c))
    ensures forall|x: Lit| #[trigger] s.contains(x) ==> d.lits(c).contains(x) && a.value(x.var() as int).is_none(), forall|x: Lit| #[trigger] d.lits(c).contains(x) && !s.contains(x) ==> fls(a, x) {
    let t = d.lits(c);
    assert forall|x: Lit| #[trigger] s.contains(x) == (t.contains(x) && is_open(a)(x)) by { lem_filter_has(t, is_open(a), x); }
    assert forall|x: Lit| #[trigger] t.contains(x) && !s.contains(x) implies fls(a, x) by {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == x; lem_lits(a, d, c, i); reveal(clean); assert(!a.gone(d.clause@[c.ord() as int].lits@[i].var() as int)); assert(a.lit_value(t[i]) != Some(true)); }
}
pub proof fn lem_filter_has(t: Seq<Lit>, f: spec_fn(Lit) -> bool, x: Lit) ensures t.filter(f).contains(x) == (t.contains(x) && f(x)) decreases t.len() {
    reveal(Seq::filter);
    if t.len() > 0 {
        let u = t.drop_last(); let l = t.last(); lem_filter_has(u, f, x);
        let r = u.filter(f);
        if f(l) { assert(t.filter(f) == r.push(l)); if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(r.push(l)[i] == x); } assert(r.push(l)[r.len() as int] == l); if r.push(l).contains(x) && x != l { let i = choose|i: int| 0 <= i < r.push(l).len() && r.push(l)[i] == x; assert(r[i] == x); } }
        if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(t[i] == x); }
        if t.contains(x) && x != l { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(u[i] == x); }
        assert(t[t.len() - 1] == l);
    }
}
/// dropping false literals keeps the models
pub proof fn lem_dropped_sat(m: Val, a: AssignStack, d: ClauseDB, c: ClauseId, s: Seq<Lit>)
    requires ready(a, d), a.trail_lim@.len() == 0, live(d.clause@, c), forall|x: Lit| #[trigger] d.lits(c).contains(x) && !s.contains(x) ==> fls(a, x), forall|x: Lit| #[trigger] s.contains(x) ==> d.lits(c).contains(x),
        holds(m, a, seq![])
    ensures satisfies(m, d.lits(c)) == satisfies(m, s) {
    let t = d.lits(c);
    if satisfies(m, t) { let i = choose|i: int| 0 <= i < t.len() && vtrue(m, #[trigger] t[i]); lem_lits(a, d, c, i); if !s.contains(t[i]) { lem_fixed(m, a, seq![], t[i]); } let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(vtrue(m, s[j])); }
    if satisfies(m, s) { let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(s.contains(s[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; assert(vtrue(m, t[j])); }
}
pub proof fn lem_holds_root(m: Val, a: AssignStack, cs: Seq<Clause>) requires holds(m, a, cs) ensures holds(m, a, seq![]) { }
pub proof fn lem_shortened_models(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, s: Seq<Lit>)
    requires ready(a, d), a.trail_lim@.len() == 0, shorter(d, d2, c, s), !d2.clause@[c.ord() as int].dead(), forall|x: Lit| #[trigger] d.lits(c).contains(x) && !s.contains(x) ==> fls(a, x)
    ensures same_models(a, d.clause@, a, d2.clause@) {
    let cs = d.clause@; let cs2 = d2.clause@; let k = c.ord() as int;
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by {
        if holds(m, a, seq![]) {
            lem_dropped_sat(m, a, d, c, s);
            if sat_all(m, cs) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(!cs[j].dead()); if j != k { assert(cs2[j] == cs[j]); } } }
            if sat_all(m, cs2) { assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { if j != k { assert(cs2[j] == cs[j]); } assert(!cs2[j].dead()); } }
        } else { if holds(m, a, cs) { lem_holds_root(m, a, cs); } if holds(m, a, cs2) { lem_holds_root(m, a, cs2); } } }
}
/// a clause every model satisfies anyway has been removed
pub proof fn lem_removed_models(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId)
    requires ready(a, d), a.trail_lim@.len() == 0, shorter(d, d2, c, seq![]), d2.clause@[c.ord() as int].dead(), forall|m: Val| #[trigger] perm_sat(m, d2.clause@) && agrees0(m, a) ==> satisfies(m, d.lits(c))
    ensures same_models(a, d.clause@, a, d2.clause@), as_lasting(a, d.clause@, a, d2.clause@) {
    let cs = d.clause@; let cs2 = d2.clause@; let k = c.ord() as int;
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by {
        if sat_all(m, cs) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(cs2[j] == cs[j]); } }
        if holds(m, a, cs2) { assert(perm_sat(m, cs2)); assert(agrees0(m, a)); assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { if j != k { assert(cs2[j] == cs[j]); } } } }
    lem_lasting_but(a, cs, cs2, k);
}
/// it has a literal true at level 0
pub proof fn lem_satisfied(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId) requires ready(a, d), a.trail_lim@.len() == 0, shorter(d, d2, c, seq![]), d2.clause@[c.ord() as int].dead(), some_true(a, d.lits(c)) ensures same_models(a, d.clause@, a, d2.clause@), as_lasting(a, d.clause@, a, d2.clause@) {
    let t = d.lits(c); let i = choose|i: int| 0 <= i < t.len() && a.lit_value(#[trigger] t[i]) == Some(true); lem_lits(a, d, c, i);
    assert forall|m: Val| #[trigger] perm_sat(m, d2.clause@) && agrees0(m, a) implies satisfies(m, t) by { assert(holds(m, a, seq![])); lem_fixed(m, a, seq![], t[i]); assert(vtrue(m, t[i])); }
    lem_removed_models(a, d, d2, c);
}
/// what is left of it is another clause
pub proof fn lem_doubled(a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId, e: ClauseId, s: Seq<Lit>)
    requires ready(a, d), a.trail_lim@.len() == 0, shorter(d, d2, c, seq![]), d2.clause@[c.ord() as int].dead(), live(d.clause@, e), e != c, same_pair(d.lits(e), s), forall|x: Lit| #[trigger] s.contains(x) ==> d.lits(c).contains(x)
    ensures same_models(a, d.clause@, a, d2.clause@), as_lasting(a, d.clause@, a, d2.clause@) {
    let t = d.lits(c); let p = d.lits(e); assert(e.ord() != c.ord()) by { if e.ord() == c.ord() { lem_cid_eq(e, c); } }
    assert forall|m: Val| #[trigger] perm_sat(m, d2.clause@) && agrees0(m, a) implies satisfies(m, t) by {
        assert(d2.clause@[e.ord() as int] == d.clause@[e.ord() as int]); lem_perm_lit(m, d2.clause@, e.ord() as int); assert(satisfies(m, p)); let i = choose|i: int| 0 <= i < p.len() && vtrue(m, #[trigger] p[i]);
        let h = if s[0] == p[i] { 0int } else { 1int }; assert(s[h] == p[i]); assert(s.contains(s[h])); let j = choose|j: int| 0 <= j < t.len() && t[j] == p[i]; assert(vtrue(m, t[j])); }
    lem_removed_models(a, d, d2, c);
}
proof fn lem_cid_eq(e: ClauseId, c: ClauseId) requires e.ord() == c.ord() ensures e == c { }
/// all of it is false
pub proof fn lem_all_gone(a: AssignStack, d: ClauseDB, c: ClauseId) requires ready(a, d), a.trail_lim@.len() == 0, live(d.clause@, c), forall|x: Lit| #[trigger] d.lits(c).contains(x) ==> fls(a, x) ensures hopeless(a, d.clause@) {
    let t = d.lits(c);
    assert forall|m: Val| !#[trigger] holds(m, a, d.clause@) by { if holds(m, a, d.clause@) { assert(satisfies(m, t)); let i = choose|i: int| 0 <= i < t.len() && vtrue(m, #[trigger] t[i]); lem_lits(a, d, c, i); assert(t.contains(t[i])); lem_fixed(m, a, d.clause@, t[i]); } }
}
pub proof fn lem_hopeless(a0: AssignStack, cs0: Seq<Clause>, a: AssignStack, cs: Seq<Clause>) requires same_models(a0, cs0, a, cs), hopeless(a, cs) ensures hopeless(a0, cs0) { assert forall|m: Val| !#[trigger] holds(m, a0, cs0) by { assert(holds(m, a0, cs0) == holds(m, a, cs)); } }
/// all of it but l is false: l is fixed
pub proof fn lem_unit_fixed(a: AssignStack, a2: AssignStack, d: ClauseDB, c: ClauseId, l: Lit, m0: int)
    requires ready(a, d), a.trail_lim@.len() == 0, clean(a, d.clause@), live(d.clause@, c), stepped(a, a2, l, AssignReason::None), d.lits(c).contains(l), forall|x: Lit| #[trigger] d.lits(c).contains(x) && x != l ==> fls(a, x), 0 <= m0 <= a.trail@.len()
    ensures ready(a2, d), clean(a2, d.clause@), same_models(a, d.clause@, a2, d.clause@), as_lasting(a, d.clause@, a2, d.clause@), grown(a, a2), forall|n: int| #[trigger] tidy(a, d.clause@, n, m0) ==> tidy(a2, d.clause@, n, m0), a2.trail_lim@.len() == 0, tru(a2, l) {
    let cs = d.clause@; let t = d.lits(c); let v = l.var() as int; let r = AssignReason::None;
    a.lem_level0(v);
    lem_root_ready0(a, a2, d, l, r);
    assert(clean(a2, cs)) by { reveal(clean); assert forall|e: ClauseId, i: int| #![trigger cs[e.ord() as int].lits@[i]] live(cs, e) && 0 <= i < cs[e.ord() as int].lits@.len() implies !a2.gone(cs[e.ord() as int].lits@[i].var() as int) by { let x = cs[e.ord() as int].lits@[i]; lem_lits(a, d, e, i); assert(!a.gone(x.var() as int)); if x.var() != v { assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); } } }
    assert forall|m: Val| #[trigger] holds(m, a, cs) implies vtrue(m, l) by { assert(satisfies(m, t)); let i = choose|i: int| 0 <= i < t.len() && vtrue(m, #[trigger] t[i]); lem_lits(a, d, c, i); if t[i] != l { assert(t.contains(t[i])); lem_fixed(m, a, cs, t[i]); } }
    lem_root_unit(a, a2, cs, l);
    assert(more_root(a, a2)) by { assert forall|m: Val| #[trigger] agrees0(m, a2) implies agrees0(m, a) by { assert forall|w: int| 1 <= w <= a.nv() && (#[trigger] a.var@[w]).assign.is_some() && a.var@[w].level == 0 implies m(w) == a.var@[w].assign.unwrap() by { assert(a.value(w).is_some()); assert(a2.var@[w] == a.var@[w]); } } }
    lem_lasting_same(a, cs, a2);
    assert forall|n: int| #[trigger] tidy(a, cs, n, m0) implies tidy(a2, cs, n, m0) by { reveal(tidy);
        assert forall|e: ClauseId, i: int| #![trigger cs[e.ord() as int].lits@[i]] live(cs, e) && e.ord() < n && 0 <= i < cs[e.ord() as int].lits@.len() && a2.value(cs[e.ord() as int].lits@[i].var() as int).is_some() implies after(a2, m0, cs[e.ord() as int].lits@[i].var() as int) by {
            let x = cs[e.ord() as int].lits@[i]; lem_part_push(a.trail@, l, m0, x.var() as int); if x.var() != v { lem_lits(a, d, e, i); assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); assert(after(a, m0, x.var() as int)); } } }
}
pub proof fn lem_root_ready0(a: AssignStack, a2: AssignStack, d: ClauseDB, l: Lit, r: AssignReason)
    requires ready(a, d), stepped(a, a2, l, r), a.trail_lim@.len() == 0
    ensures ready(a2, d) {
    let cs = d.clause@; let n = a.trail@.len() as int;
    lem_root_expl(a2, cs);
    assert(upto(a2)) by { assert forall|i: int| a2.q_head <= i < a2.trail@.len() implies lev(a2, #[trigger] a2.trail@[i]) == a2.trail_lim@.len() by { assert(a2.lev_at(i)); } }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok);
        assert forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() implies { let e = d.watch_cache@[w]@[j]; a2.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a2, e.1) && lev(a2, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(a.lit_ok(e.1)); if fls(a, e.1) { lem_step_val(a, a2, l, r, e.1); } } }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
}
pub proof fn lem_grown_trans(a: AssignStack, b: AssignStack, c: AssignStack) requires grown(a, b), grown(b, c) ensures grown(a, c) {
    assert forall|v: int| 0 <= v < a.var@.len() implies (#[trigger] c.var@[v]).flags.ca_seen == a.var@[v].flags.ca_seen && c.var@[v].flags.eliminated == a.var@[v].flags.eliminated && (c.var@[v].level == a.var@[v].level || c.var@[v].level == 0) && (1 <= v && a.var@[v].assign.is_some() ==> c.var@[v].assign == a.var@[v].assign) by { assert(b.var@[v].flags.ca_seen == a.var@[v].flags.ca_seen); } }
/// all that could be propagated has been: nothing in the clauses is assigned
pub proof fn lem_cleared_complete(a: AssignStack, d: ClauseDB) requires ready(a, d), cleared_out(a, d.clause@) ensures complete(a, d.clause@) {
    reveal(complete); reveal(tidy); let cs = d.clause@;
    assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 implies fine(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by {
        let x = cs[c.ord() as int].lits@[p]; lem_lits(a, d, c, p); if fls(a, x) { assert(after(a, a.trail@.len() as int, x.var() as int)); } }
}
// ---- propagation at level 0
pub proof fn lem_went(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, d2: ClauseDB)
    requires rooted(a0, d0, a, d), going(a, d, a2, d2)
    ensures rooted(a0, d0, a2, d2) {
    let cs = d.clause@; let cs2 = d2.clause@;
    reveal(same_sets); reveal(follows);
    assert(d2.clause@.len() == d.clause@.len());
    assert(clean(a2, cs2)) by { reveal(clean);
        assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && 0 <= i < cs2[e.ord() as int].lits@.len() implies !a2.gone(cs2[e.ord() as int].lits@[i].var() as int) by {
            let x = cs2[e.ord() as int].lits@[i]; let t = cs[e.ord() as int].lits@; assert(same_set(t, cs2[e.ord() as int].lits@)); assert(cs2[e.ord() as int].lits@.contains(x)); assert(t.contains(x)); lem_set_dead(cs[e.ord() as int], cs2[e.ord() as int]);
            let h = choose|h: int| 0 <= h < t.len() && t[h] == x; assert(!a.gone(cs[e.ord() as int].lits@[h].var() as int)); lem_lits(a, d, e, h); assert(a2.var@[x.var() as int].flags.eliminated == a.var@[x.var() as int].flags.eliminated); } }
    assert(grown(a, a2)) by { assert forall|v: int| 0 <= v < a.var@.len() implies (#[trigger] a2.var@[v]).flags.ca_seen == a.var@[v].flags.ca_seen && a2.var@[v].flags.eliminated == a.var@[v].flags.eliminated && (a2.var@[v].level == a.var@[v].level || a2.var@[v].level == 0) && (1 <= v && a.var@[v].assign.is_some() ==> a2.var@[v].assign == a.var@[v].assign) by { } }
    lem_grown_trans(a0, a, a2);
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a2, cs2) by {
        lem_sat_sets(m, cs, cs2);
        if holds(m, a, cs) { assert(agrees(m, a)) by { assert forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() implies m(v) == a.var@[v].assign.unwrap() by { a.lem_level0(v); } } assert(agrees(m, a2)); }
        if holds(m, a2, cs2) { assert forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 implies m(v) == a.var@[v].assign.unwrap() by { assert(a2.var@[v].assign == a.var@[v].assign && a2.var@[v].level == 0); } } }
    lem_models_trans(a0, d0.clause@, a, cs, a2, cs2);
    assert(more_root(a, a2)) by { assert forall|m: Val| #[trigger] agrees0(m, a2) implies agrees0(m, a) by { assert forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 implies m(v) == a.var@[v].assign.unwrap() by { assert(a2.var@[v].assign == a.var@[v].assign && a2.var@[v].level == 0); } } }
    lem_lasting_sets(a, cs, cs2); lem_lasting_same(a, cs2, a2);
}
proof fn lem_set_dead(c: Clause, e: Clause) requires same_set(c.lits@, e.lits@) ensures c.dead() == e.dead() { }
/// a conflict at level 0
pub proof fn lem_no_way(a: AssignStack, d: ClauseDB, l: Lit, r: AssignReason) requires ready(a, d), a.trail_lim@.len() == 0, conflict_ok(a, d.clause@, l, r) ensures hopeless(a, d.clause@) {
    let cs = d.clause@;
    let c = match r { AssignReason::Implication(c) => c, AssignReason::BinaryLink(k) => choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == l || t[0] == l && t[1] == k.neg() }, _ => arbitrary() };
    let t = d.lits(c);
    assert(live(cs, c));
    assert forall|x: Lit| #[trigger] t.contains(x) implies fls(a, x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; match r { AssignReason::BinaryLink(k) => { lem_neg_props(k); } _ => { assert(fls(a, t[i])); } } }
    lem_all_gone(a, d, c);
}
"""


def unit():
    u = Unit("root")
    u_cdb.types(u)
    u.text(u_prop.DEFS)
    u.lemmas(u_prop.LEM)
    i, j = u_prop.SPEC2.index("pub proof fn lem_set_refl"), u_prop.SPEC2.index("pub proof fn lem_covered_set")
    u.lemmas(u_prop.SPEC2[i:j])
    i = u_prop.SPEC2.index("// ---- all that holds while the literal p")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("pub proof fn lem_go_start", i)])
    i = u_learn.SPEC.index("pub open spec fn holds")
    u.text(u_learn.SPEC[i:u_learn.SPEC.index("\n", i) + 1])
    i = u_step.SPEC.index("/// the same models, with what is fixed")
    u.text(u_step.SPEC[i:u_step.SPEC.index("// ---- taking levels back", i)])
    i = u_step.SPEC.index("/// what follows from the clauses can be fixed")
    u.lemmas(u_step.SPEC[i:u_step.SPEC.index("/// a clause that follows has been added", i)])
    u.text(u_step.LAST)
    u.text(SPEC)
    A, D, P = u_assign.unit(), u_cdb.unit(), u_prop.unit()
    u.uses(A, ["AssignStack::assign_at_root_level"])
    u.uses(D, ["Clause::is_dead", "ClauseDB::at", "ClauseDB::transform_by_simplification", "ClauseDB::remove_clause", "ClauseDB::certificate_add_assertion"])
    u.uses(P, ["AssignStack::propagate_sandbox"])
    f = u.fn
    f("cdb::db", "impl ClauseDBIF for ClauseDB", "len", into="ClauseDB", spec="ensures r == self.clause@.len()")
    PR = "assign::propagate"
    f("assign::stack", "impl AssignIF for AssignStack", "remains", into="AssignStack", spec="ensures r == (self.q_head < self.trail@.len())")
    K = "let ghost k = ci as int; let ghost a1 = *self; let ghost d1 = *cdb; let ghost s = d1.lits(cid).filter(is_open(a1));"
    f(PR, "impl AssignStack", "propagate_at_root_level", into="AssignStack", nloops=2,
      subst=CDBSIG + [("ClauseId :: from ( ci )", "ClauseId :: from_usize ( ci )", 1), ("match cdb . transform_by_simplification ( $$a ) {", "let verif_t = cdb . transform_by_simplification ( $$a ) ; match verif_t {", 1)] + AT,
      spec="""requires ready(*old(self), *old(cdb)), old(self).trail_lim@.len() == 0, clean(*old(self), old(cdb).clause@)
    ensures r.is_ok() ==> rooted(*old(self), *old(cdb), *final(self), *final(cdb)) && (if old(self).trail@.len() == 0 { *final(self) == *old(self) && *final(cdb) == *old(cdb) } else { cleared_out(*final(self), final(cdb).clause@) }),
        r.is_ok() && old(self).q_head == old(self).trail@.len() && final(self).q_head < final(self).trail@.len() ==> final(self).trail@.len() > old(self).trail@.len(), final(self).q_head == old(self).q_head,
        r.is_err() ==> hopeless(*old(self), old(cdb).clause@)""",
      pre="let ghost a0 = *self; let ghost d0 = *cdb;",
      loops={0: {"inv": "invariant a0 == *old(self), d0 == *old(cdb), rooted(a0, d0, *self, *cdb), num_propagated <= self.trail@.len(), self.q_head == a0.q_head, if num_propagated == 0 { *self == a0 && *cdb == d0 } else { a0.trail@.len() > 0 && tidy(*self, cdb.clause@, cdb.clause@.len() as int, num_propagated as int) }, decreases self.nv() - num_propagated,", "top": "proof { self.lem_levels(); } let ghost n0 = num_propagated as int;", "bottom": "proof { self.lem_levels(); }"},
             1: {"inv": "invariant a0 == *old(self), d0 == *old(cdb), a0.trail@.len() > 0, num_propagated > n0, rooted(a0, d0, *self, *cdb), 0 < num_propagated <= self.trail@.len(), self.q_head == a0.q_head, 1 <= verif_i0 <= verif_s0 == cdb.clause@.len(), tidy(*self, cdb.clause@, verif_i0 as int, num_propagated as int), decreases verif_s0 - verif_i0,"}},
      ghost=[("after", "num_propagated = self . trail . len ( ) ;", "proof { reveal(tidy); }"),
        ("before", "continue ;", "proof { lem_tidy_skip(*self, cdb.clause@, ci as int, num_propagated as int); }"),
        ("before", "let verif_t", "let ghost a1 = *self; let ghost d1 = *cdb; proof { assert(live(d1.clause@, cid)); assert(a1.reads(d1.clause@[ci as int].lits@)); }"),
        ("before", "match verif_t", "let ghost d2 = *cdb; proof { if !(verif_t is EmptyClause) && !(verif_t is UnitClause) { lem_swept(a0, d0, a1, d1, d2, cid, verif_t, num_propagated as int); } else if verif_t is EmptyClause { lem_emptied(a0, d0, a1, d1, cid); } else { lem_open_lit(a1, d1, cid, verif_t->UnitClause_0); } }"),
        ("before", "cdb . remove_clause ( cid )", "let ghost d3 = *cdb; proof { let s = choose|s: AssignStack| s.wf() && (a1.queue_ok() ==> s.queue_ok()) && a1.cancels(&s, 0) && s.trail_lim@.len() == 0 && #[trigger] s.asserts(self, lit); assert(s == a1); }"),
        ("after_stmt", "cdb . remove_clause ( cid )", "proof { lem_fixed_step(a0, d0, a1, d1, cid, lit, *self, d3, *cdb, num_propagated as int); }"),
        ])
    f(PR, "impl PropagateIF for AssignStack", "clear_asserted_literals", into="AssignStack", nloops=1,
      subst=CDBSIG + [("self . propagate_at_root_level ( cdb ) ? ;", "match self . propagate_at_root_level ( cdb ) { Ok ( _ ) => { } Err ( verif_x ) => { return Err ( verif_x ) ; } }", 1), ("self . propagate_sandbox ( cdb ) . map_err ( SolverError :: RootLevelConflict ) ? ;", "match self . propagate_sandbox ( cdb ) { Ok ( _ ) => { } Err ( verif_e ) => { return Err ( SolverError :: RootLevelConflict ( verif_e ) ) ; } }", 2)],
      drop=[("self . num_asserted_vars += self . trail . len ( ) ;", "", "counter of the fixed variables")],
      spec="""requires ready(*old(self), *old(cdb)), old(self).trail_lim@.len() == 0, clean(*old(self), old(cdb).clause@)
    ensures r.is_ok() ==> rooted0(*old(self), *old(cdb), *final(self), *final(cdb)) && final(self).trail@.len() == 0 && final(self).q_head == 0 && (complete(*old(self), old(cdb).clause@) || untouched(*old(self), old(cdb).clause@) ==> complete(*final(self), final(cdb).clause@)),
        r.is_err() ==> hopeless(*old(self), old(cdb).clause@)""",
      pre="let ghost a0 = *self; let ghost d0 = *cdb; proof { lem_rooted_start(a0, d0); }",
      loops={0: {"attr": "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", "inv": """invariant_except_break rooted(a0, d0, *self, *cdb), self.trail@.len() == 0 ==> *self == a0 && *cdb == d0,
            complete(a0, d0.clause@) ==> complete(*self, cdb.clause@),
        ensures rooted(a0, d0, *self, *cdb), self.q_head == self.trail@.len(), complete(a0, d0.clause@) || untouched(a0, d0.clause@) ==> complete(*self, cdb.clause@),
        decreases self.nv() - self.trail@.len(),""", "top": "let ghost a1 = *self; let ghost d1 = *cdb;", "after": "let ghost a9 = *self;"}},
      ghost=[("before", "match self . propagate_sandbox", "let ghost a2 = *self; let ghost d2 = *cdb;", 0),
        ("before", "match self . propagate_sandbox", "let ghost a3 = *self; let ghost d3 = *cdb;", 1),
        ("before", "return Err ( SolverError :: RootLevelConflict ( verif_e ) )", "proof { lem_went(a0, d0, a2, d2, *self, *cdb); lem_no_way(*self, *cdb, verif_e.0, verif_e.1); lem_hopeless(a0, d0.clause@, *self, cdb.clause@); }", 0),
        ("before", "return Err ( SolverError :: RootLevelConflict ( verif_e ) )", "proof { lem_went(a0, d0, a3, d3, *self, *cdb); lem_no_way(*self, *cdb, verif_e.0, verif_e.1); lem_hopeless(a0, d0.clause@, *self, cdb.clause@); }", 1),
        ("after_stmt", "match self . propagate_sandbox", "proof { lem_went(a0, d0, a3, d3, *self, *cdb); self.lem_levels(); a3.lem_levels(); }", 1),
        ("before", "match self . propagate_at_root_level", "let ghost a4 = *self; let ghost d4 = *cdb; proof { if a1.q_head < a1.trail@.len() { lem_went(a0, d0, a1, d1, a4, d4); } else { assert(a4 == a1 && d4 == d1); } assert(a4.q_head == a4.trail@.len()); }"),
        ("before", "return Err ( verif_x )", "proof { lem_hopeless(a0, d0.clause@, a4, d4.clause@); }"),
        ("before", "if self . remains", """proof { lem_rooted_trans(a0, d0, a4, d4, *self, *cdb); self.lem_levels();
            if self.trail@.len() == 0 { if untouched(a0, d0.clause@) { lem_cleared_complete(*self, *cdb); } } else if a4.trail@.len() > 0 { lem_cleared_complete(*self, *cdb); } }""", 1),
        ("after_stmt", "self . q_head = 0 ;", "proof { lem_wiped(a9, *self, *cdb, complete(a0, d0.clause@) || untouched(a0, d0.clause@)); lem_models_trans(a0, d0.clause@, a9, cdb.clause@, *self, cdb.clause@); }"),
        ])
    return u
