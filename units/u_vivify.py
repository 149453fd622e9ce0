"""vivification: clauses are replaced by parts of them that follow (C06, C10, C14)"""
import clause
import u_assign
import u_cdb
import u_learn
import u_prop
import u_root
import u_step
from clause import AT, CDBSIG
from unit import Unit

RLIMIT = 100

SPEC = r"""
// ---- what a trial conflict tells
/// one of the marked literals of the trail before entry p, above level 0, is wrong in m
pub open spec fn astray(m: Val, a: AssignStack, seen: Seq<usize>, key: usize, p: int) -> bool { exists|j: int| a.trail_lim@[0] <= j < p && seen[(#[trigger] a.trail@[j]).var() as int] == key && !vtrue(m, a.trail@[j]) }
/// a model in which the clause conf holds satisfies s, or contradicts a marked literal before entry p
pub open spec fn traced(a: AssignStack, cs: Seq<Clause>, conf: Seq<Lit>, s: Seq<Lit>, seen: Seq<usize>, key: usize, p: int) -> bool { forall|m: Val| #[trigger] holds(m, a, cs) && satisfies(m, conf) ==> satisfies(m, s) || astray(m, a, seen, key, p) }
/// ds lists the decisions
pub open spec fn decided(a: AssignStack, ds: Seq<Lit>) -> bool { ds.len() == a.trail_lim@.len() && forall|i: int| 0 <= i < ds.len() ==> a.trail@[a.trail_lim@[i] as int] == #[trigger] ds[i] }
/// s lists, without repetition, negations of decisions, all of them false
pub open spec fn undone(a: AssignStack, ds: Seq<Lit>, s: Seq<Lit>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> a.lit_ok(#[trigger] s[i]) && fls(a, s[i]) && lev(a, s[i]) > 0 && ds.contains(s[i].neg())
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).var() != (#[trigger] s[j]).var()
}
/// the same while the trail is being read backwards, down to entry p; js tells where the literals were
pub open spec fn undone_at(a: AssignStack, s: Seq<Lit>, js: Seq<int>, p: int) -> bool {
    &&& js.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> p <= #[trigger] js[i] < a.trail@.len() && s[i] == a.trail@[js[i]].neg()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] js[i] > #[trigger] js[j]
}
pub proof fn lem_undone(a: AssignStack, ds: Seq<Lit>, s: Seq<Lit>, js: Seq<int>) requires a.wf(), a.trail_lim@.len() > 0, undone_at(a, s, js, a.trail_lim@[0] as int), forall|i: int| 0 <= i < s.len() ==> ds.contains(#[trigger] s[i].neg()) ensures undone(a, ds, s) {
    assert forall|i: int| 0 <= i < s.len() implies a.lit_ok(#[trigger] s[i]) && fls(a, s[i]) && lev(a, s[i]) > 0 && ds.contains(s[i].neg()) by { let x = a.trail@[js[i]]; assert(a.lit_ok(x)); lem_neg_props(x); assert(a.lev_at(js[i])); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).var() != (#[trigger] s[j]).var() by { assert(js[i] > js[j]); assert(a.trail@[js[j]].var() != a.trail@[js[i]].var()); lem_neg_props(a.trail@[js[i]]); lem_neg_props(a.trail@[js[j]]); }
}
/// a literal of a clause that is false here but true in m is above level 0
pub proof fn lem_wrong(m: Val, a: AssignStack, cs: Seq<Clause>, x: Lit, p: int) requires a.wf(), a.trail_lim@.len() > 0, holds(m, a, cs), a.lit_ok(x), fls(a, x), vtrue(m, x), 0 <= p, !after(a, p, x.var() as int) ensures exists|j: int| a.trail_lim@[0] <= j < p && j < a.trail@.len() && #[trigger] a.trail@[j] == x.neg(), !vtrue(m, x.neg()) {
    let v = x.var() as int; lem_neg_props(x);
    assert(a.value(v).is_some()); assert(a.var@[v].assign.is_some());
    if a.var@[v].level == 0 { assert(m(v) == a.var@[v].assign.unwrap()); }
    assert(a.on_trail(v));
    let j = choose|j: int| 0 <= j < a.trail@.len() && #[trigger] a.trail@[j].var() == v;
    if j >= p { assert(after(a, p, v)); }
    assert(a.lev_at(j)); assert(a.lit_ok(a.trail@[j]));
    assert(a.trail_lim@[0] <= j) by { let l = lev(a, a.trail@[j]); if l > 1 { assert(a.trail_lim@[0] < a.trail_lim@[l - 1]); } }
    lem_same_var(a.trail@[j], x.neg());
}
pub proof fn lem_trace_start(a: AssignStack, cs: Seq<Clause>, conf: Seq<Lit>, seen: Seq<usize>, key: usize)
    requires a.wf(), a.trail_lim@.len() > 0, forall|i: int| 0 <= i < conf.len() ==> a.lit_ok(#[trigger] conf[i]) && fls(a, conf[i]) && seen[conf[i].var() as int] == key
    ensures traced(a, cs, conf, Seq::<Lit>::empty(), seen, key, a.trail@.len() as int) {
    let n = a.trail@.len() as int;
    assert forall|m: Val| #[trigger] holds(m, a, cs) && satisfies(m, conf) implies satisfies(m, Seq::<Lit>::empty()) || astray(m, a, seen, key, n) by {
        let i = choose|i: int| 0 <= i < conf.len() && vtrue(m, #[trigger] conf[i]); let x = conf[i]; assert(!after(a, n, x.var() as int));
        lem_wrong(m, a, cs, x, n); let j = choose|j: int| a.trail_lim@[0] <= j < n && j < a.trail@.len() && #[trigger] a.trail@[j] == x.neg(); lem_neg_props(x); assert(seen[a.trail@[j].var() as int] == key && !vtrue(m, a.trail@[j])); }
}
/// entry p has been read
pub proof fn lem_trace_step(a: AssignStack, d: ClauseDB, conf: Seq<Lit>, s: Seq<Lit>, seen: Seq<usize>, key: usize, p: int, s2: Seq<Lit>, seen2: Seq<usize>)
    requires ready(a, d), a.trail_lim@.len() > 0, traced(a, d.clause@, conf, s, seen, key, p + 1), a.trail_lim@[0] <= p < a.trail@.len(), seen2.len() == seen.len() == a.var@.len(),
        forall|v: int| 0 <= v < seen.len() && seen[v] == key ==> #[trigger] seen2[v] == key,
        s2 == s || s2 == s.push(a.trail@[p].neg()),
        seen[a.trail@[p].var() as int] == key ==> match a.var@[a.trail@[p].var() as int].reason {
            AssignReason::Decision(_) => s2 == s.push(a.trail@[p].neg()),
            AssignReason::BinaryLink(k) => seen2[k.var() as int] == key,
            AssignReason::Implication(c) => forall|j: int| 1 <= j < d.lits(c).len() ==> seen2[(#[trigger] d.lits(c)[j]).var() as int] == key,
            AssignReason::None => true },
    ensures traced(a, d.clause@, conf, s2, seen2, key, p) {
    let cs = d.clause@; let l = a.trail@[p]; let v = l.var() as int;
    assert(a.lit_ok(l)); assert(a.lev_at(p)); lem_neg_props(l); reveal(all_explained); assert(lev(a, l) > 0); assert(explained(a, cs, p));
    assert forall|m: Val| #[trigger] holds(m, a, cs) && satisfies(m, conf) implies satisfies(m, s2) || astray(m, a, seen2, key, p) by {
        if satisfies(m, s) { let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(s2[i] == s[i]); assert(satisfies(m, s2)); }
        else {
            let j = choose|j: int| a.trail_lim@[0] <= j < p + 1 && seen[(#[trigger] a.trail@[j]).var() as int] == key && !vtrue(m, a.trail@[j]);
            assert(a.lit_ok(a.trail@[j]));
            if j < p { assert(seen2[a.trail@[j].var() as int] == key); assert(astray(m, a, seen2, key, p)); }
            else if s2 == s.push(l.neg()) { assert(s2[s.len() as int] == l.neg()); assert(vtrue(m, s2[s.len() as int])); }
            else {
                match a.var@[v].reason {
                    AssignReason::BinaryLink(k) => {
                        let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == l || t[0] == l && t[1] == k.neg() }; let t = cs[c.ord() as int].lits@;
                        assert(live(cs, c)); assert(satisfies(m, t)); let h = choose|h: int| 0 <= h < t.len() && vtrue(m, #[trigger] t[h]); assert(t[h] == k.neg()); lem_neg_props(k); lem_neg_props(k.neg());
                        lem_wrong(m, a, cs, k.neg(), p); let i = choose|i: int| a.trail_lim@[0] <= i < p && i < a.trail@.len() && #[trigger] a.trail@[i] == k.neg().neg(); assert(seen2[a.trail@[i].var() as int] == key); }
                    AssignReason::Implication(c) => {
                        let t = cs[c.ord() as int].lits@; assert(satisfies(m, t)); let h = choose|h: int| 0 <= h < t.len() && vtrue(m, #[trigger] t[h]); assert(h != 0); lem_lits(a, d, c, h); assert(fls(a, t[h])); lem_neg_props(t[h]);
                        lem_wrong(m, a, cs, t[h], p); let i = choose|i: int| a.trail_lim@[0] <= i < p && i < a.trail@.len() && #[trigger] a.trail@[i] == t[h].neg(); assert(seen2[a.trail@[i].var() as int] == key); }
                    _ => { }
                }
            }
        } }
}
pub proof fn lem_trace_end(a: AssignStack, cs: Seq<Clause>, conf: Seq<Lit>, s: Seq<Lit>, seen: Seq<usize>, key: usize) requires traced(a, cs, conf, s, seen, key, a.trail_lim@[0] as int) ensures forall|m: Val| #[trigger] holds(m, a, cs) && satisfies(m, conf) ==> satisfies(m, s) { }
/// the decisions of the trail are in the list
pub proof fn lem_decided(a: AssignStack, ds: Seq<Lit>, p: int) requires decided(a, ds), a.wf(), 0 <= p < a.trail@.len(), lev(a, a.trail@[p]) > 0, a.trail_lim@[lev(a, a.trail@[p]) - 1] == p ensures ds.contains(a.trail@[p]) { let l = lev(a, a.trail@[p]); assert(a.lev_at(p)); assert(ds[l - 1] == a.trail@[p]); }
"""

SPEC2 = r"""
// ---- between the trials
pub open spec fn viv(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB) -> bool {
    &&& ready(a, d) && clean(a, d.clause@) && a.var@.len() == a0.var@.len() && a.num_vars == a0.num_vars && a.eliminated == a0.eliminated
    &&& forall|v: int| 0 <= v < a0.var@.len() ==> (#[trigger] a.var@[v]).flags.ca_seen == a0.var@[v].flags.ca_seen && a.var@[v].flags.eliminated == a0.var@[v].flags.eliminated
    &&& d.nl() == d0.nl() && d.soft_limit == d0.soft_limit && d.lbd_temp@.len() == a0.var@.len() && a.levels_below(a0.var@.len() as int) && d.stamped()
    &&& same_models(a0, d0.clause@, a, d.clause@) && as_lasting(a0, d0.clause@, a, d.clause@)
}
/// all above level 0 is taken back
pub open spec fn backed(a: AssignStack, a2: AssignStack) -> bool {
    &&& a2.wf() && a2.queue_ok() && a2.trail_lim@.len() == 0 && a2.trail@ == a.root_trail()
    &&& a2.var@.len() == a.var@.len() && a2.eliminated == a.eliminated && a2.num_vars == a.num_vars
    &&& (a.trail_lim@.len() == 0 ==> a2 == a) && (a.trail_lim@.len() > 0 ==> a2.q_head == a2.trail@.len())
    &&& forall|v: int| 0 <= v < a.var@.len() ==> (#[trigger] a2.var@[v]).level == a.var@[v].level && a2.var@[v].flags == a.var@[v].flags && a2.var@[v].reason_saved == a.var@[v].reason_saved
    &&& forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() ==> a2.value(v) == a.root_value(v) && a2.gone(v) == a.gone(v) && (a2.value(v).is_some() ==> a2.same_var(&a, v)) && (a.value(v).is_none() ==> a2.var@[v].reason == a.var@[v].reason)
}
pub proof fn lem_viv_back(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack)
    requires viv(a0, d0, a, d), backed(a, a2), if a.trail_lim@.len() > 0 { complete_below(a, d.clause@) } else { complete(a, d.clause@) }
    ensures viv(a0, d0, a2, d), complete(a2, d.clause@) {
    let cs = d.clause@;
    if a.trail_lim@.len() > 0 {
        assert(a.trail_lim@[0] < a.trail@.len());
        assert(kept_to(a, a2, 0)) by { assert forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() && !(a.value(v).is_some() && a.var@[v].level > 0) implies a2.value(v) == a.value(v) && a2.var@[v].reason == a.var@[v].reason by { if a.value(v).is_some() { assert(a2.same_var(&a, v)); } } }
        assert(a.q_head >= a2.trail@.len()) by { if a.q_head < a.trail_lim@[0] { let q = a.q_head as int; lem_cut_at(a, 0, q); assert(lev(a, a.trail@[q]) == a.trail_lim@.len()); } }
        assert(a2.trail_lim@ =~= a.trail_lim@.take(0));
        lem_cut_ready(a, a2, d, 0);
        assert(same_root(a, a2)) by { assert forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() implies a2.root_value(v) == a.root_value(v) by { if a2.value(v).is_some() { assert(a2.var@[v].level == a.var@[v].level); } } }
        lem_same_root(a, a2, cs); lem_same_more(a, a2); lem_lasting_same(a, cs, a2); lem_models_trans(a0, d0.clause@, a, cs, a2, cs);
        assert(clean(a2, cs)) by { reveal(clean); assert forall|e: ClauseId, i: int| #![trigger cs[e.ord() as int].lits@[i]] live(cs, e) && 0 <= i < cs[e.ord() as int].lits@.len() implies !a2.gone(cs[e.ord() as int].lits@[i].var() as int) by { let x = cs[e.ord() as int].lits@[i]; lem_lits(a, d, e, i); assert(!a.gone(x.var() as int)); assert(a2.var@[x.var() as int].flags == a.var@[x.var() as int].flags); } }
        assert(a2.levels_below(a0.var@.len() as int)) by { assert forall|v: int| 0 <= v < a2.var@.len() implies (#[trigger] a2.var@[v]).level < a0.var@.len() by { assert(a.var@[v].level < a0.var@.len()); } }
    }
}
pub proof fn lem_viv_went(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, d2: ClauseDB)
    requires viv(a0, d0, a, d), going(a, d, a2, d2)
    ensures viv(a0, d0, a2, d2), d2.clause@.len() == d.clause@.len() {
    let cs = d.clause@; let cs2 = d2.clause@;
    assert(cs2.len() == cs.len()) by { reveal(same_sets); }
    assert(clean(a2, cs2)) by { reveal(clean); reveal(same_sets);
        assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && 0 <= i < cs2[e.ord() as int].lits@.len() implies !a2.gone(cs2[e.ord() as int].lits@[i].var() as int) by {
            let x = cs2[e.ord() as int].lits@[i]; let t = cs[e.ord() as int].lits@; assert(same_set(t, cs2[e.ord() as int].lits@)); assert(cs2[e.ord() as int].lits@.contains(x)); assert(t.contains(x)); lem_set_dead(cs[e.ord() as int], cs2[e.ord() as int]);
            let h = choose|h: int| 0 <= h < t.len() && t[h] == x; assert(!a.gone(cs[e.ord() as int].lits@[h].var() as int)); lem_lits(a, d, e, h); assert(a2.var@[x.var() as int].flags.eliminated == a.var@[x.var() as int].flags.eliminated); } }
    if a.trail_lim@.len() > 0 {
        assert(same_root(a, a2)) by { assert forall|v: int| #![trigger a2.var@[v]] 1 <= v <= a.nv() implies a2.root_value(v) == a.root_value(v) by { if a.var@[v].assign.is_some() { assert(a2.var@[v].assign == a.var@[v].assign); } } }
        lem_same_root(a, a2, cs); lem_same_more(a, a2);
        assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a2, cs2) by { lem_sat_sets(m, cs, cs2); assert(holds(m, a, cs) == holds(m, a2, cs)); }
        lem_lasting_sets(a, cs, cs2); lem_lasting_same(a, cs2, a2);
    } else {
        lem_rooted_start(a, d); lem_went(a, d, a, d, a2, d2);
    }
    lem_models_trans(a0, d0.clause@, a, cs, a2, cs2);
    a2.lem_levels();
    assert(a2.levels_below(a0.var@.len() as int)) by { assert forall|v: int| 0 <= v < a2.var@.len() implies (#[trigger] a2.var@[v]).level < a0.var@.len() by { assert(a.var@[v].level < a0.var@.len()); } }
}
/// a decision
pub proof fn lem_viv_decide(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, l: Lit)
    requires viv(a0, d0, a, d), complete(a, d.clause@), a.q_head == a.trail@.len(), a.lit_ok(l), a.value(l.var() as int).is_none(), a2.wf(), a2.queue_ok(), a.assigned_to(&a2, l), a2.trail_lim@ == a.trail_lim@.push(a.trail@.len() as usize), a2.var@[l.var() as int].reason == AssignReason::Decision(a2.trail_lim@.len() as u32)
    ensures viv(a0, d0, a2, d), complete(a2, d.clause@), a2.trail_lim@.len() > 0 {
    let cs = d.clause@; let n = a.trail@.len() as int; let v = l.var() as int;
    assert(a2.trail@[n] == l); a2.lem_levels();
    assert forall|x: Lit| #[trigger] a.lit_ok(x) && a.value(x.var() as int).is_some() implies a2.lit_value(x) == a.lit_value(x) && lev(a2, x) == lev(a, x) by { assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); }
    assert(d.readable(a2)) by { assert forall|j: int| 0 <= j < cs.len() implies a2.reads((#[trigger] cs[j]).lits@) by { assert(a.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a2.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a.lit_ok(cs[j].lits@[i])); } } }
    assert(blockers_ok(a2, d)) by { reveal(blockers_ok); assert forall|w: int, j: int| #![trigger d.watch_cache@[w]@[j]] 0 <= w < d.nl() && 0 <= j < d.watch_cache@[w]@.len() implies { let e = d.watch_cache@[w]@[j]; a2.lit_ok(e.1) && (d.lits(e.0).contains(e.1) || fls(a2, e.1) && lev(a2, e.1) == 0) } by { let e = d.watch_cache@[w]@[j]; assert(a.lit_ok(e.1)); } }
    assert(all_explained(a2, cs)) by { reveal(all_explained);
        assert forall|i: int| 0 <= i < a2.trail@.len() && lev(a2, a2.trail@[i]) > 0 implies #[trigger] explained(a2, cs, i) by {
            if i < n {
                let x = a.trail@[i]; assert(a2.trail@[i] == x); assert(a.lit_ok(x)); assert(x.var() != v); assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); assert(explained(a, cs, i)); assert(a.lev_at(i));
                match a.var@[x.var() as int].reason {
                    AssignReason::BinaryLink(k) => { lem_part_push(a.trail@, l, i, k.var() as int); assert(a.lit_ok(k)); }
                    AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; assert forall|j: int| 1 <= j < s.len() implies fls(a2, #[trigger] s[j]) && !after(a2, i, s[j].var() as int) by { lem_lits(a, d, c, j); assert(fls(a, s[j])); lem_part_push(a.trail@, l, i, s[j].var() as int); } }
                    AssignReason::Decision(_) => { let h = lev(a, x); assert(a2.trail_lim@[h - 1] == a.trail_lim@[h - 1]); }
                    _ => {}
                }
            } } }
    assert(upto(a2)) by { assert forall|i: int| a2.q_head <= i < a2.trail@.len() implies lev(a2, #[trigger] a2.trail@[i]) == a2.trail_lim@.len() by { assert(i == n); } }
    assert(complete(a2, cs)) by { reveal(complete);
        assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 implies fine(a2, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by {
            let s = cs[c.ord() as int].lits@; let x = s[p]; lem_lits(a, d, c, p); assert(fine(a, s, x));
            if fls(a2, x) && !pend(a2, x.var() as int) {
                lem_part_push(a.trail@, l, n, v); assert(x.var() != v); assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); assert(!pend(a, x.var() as int)); assert(covered(a, s, x));
                let y = choose|y: Lit| #[trigger] s.contains(y) && tru(a, y) && lev(a, y) <= lev(a, x); lem_has(a, d, c, y); assert(tru(a2, y) && lev(a2, y) <= lev(a2, x)); } } }
    assert(same_root(a, a2)) by { assert forall|w: int| #![trigger a2.var@[w]] 1 <= w <= a.nv() implies a2.root_value(w) == a.root_value(w) by { } }
    lem_same_root(a, a2, cs); lem_same_more(a, a2); lem_lasting_same(a, cs, a2); lem_models_trans(a0, d0.clause@, a, cs, a2, cs);
    assert(clean(a2, cs)) by { reveal(clean); assert forall|e: ClauseId, i: int| #![trigger cs[e.ord() as int].lits@[i]] live(cs, e) && 0 <= i < cs[e.ord() as int].lits@.len() implies !a2.gone(cs[e.ord() as int].lits@[i].var() as int) by { let x = cs[e.ord() as int].lits@[i]; lem_lits(a, d, e, i); assert(!a.gone(x.var() as int)); if x.var() != v { assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); } } }
    assert(a2.levels_below(a0.var@.len() as int)) by { assert forall|w: int| 0 <= w < a2.var@.len() implies (#[trigger] a2.var@[w]).level < a0.var@.len() by { assert(a.var@[w].level < a0.var@.len()); if w != v { assert(a2.var@[w] == a.var@[w]); } } }
}
/// a counter of a clause has changed
pub proof fn lem_viv_used(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, d2: ClauseDB, c: ClauseId)
    requires viv(a0, d0, a, d), complete(a, d.clause@), c.ord() < d.clause@.len(), d2 == (ClauseDB { clause: d2.clause, ..d }), d2.clause@ =~= d.clause@.update(c.ord() as int, Clause { used: d2.clause@[c.ord() as int].used, ..d.clause@[c.ord() as int] })
    ensures viv(a0, d0, a, d2), complete(a, d2.clause@), d2.lits(c) == d.lits(c) {
    let cs = d.clause@; let cs2 = d2.clause@;
    assert(same_clauses(cs, cs2));
    assert(from_ok(cs2)) by { assert forall|j: int| 0 <= j < cs2.len() implies (#[trigger] cs2[j]).search_from >= 2 by { assert(cs[j].search_from >= 2); } }
    lem_counted(a, d, d2);
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs2[j]).lits@ == cs[j].lits@ by { }
    assert(complete(a, cs2)) by { reveal(complete); assert forall|e: ClauseId, p: int| #![trigger cs2[e.ord() as int].lits@[p]] live(cs2, e) && 0 <= p < 2 implies fine(a, cs2[e.ord() as int].lits@, cs2[e.ord() as int].lits@[p]) by { assert(cs2[e.ord() as int].lits@ == cs[e.ord() as int].lits@); assert(fine(a, cs[e.ord() as int].lits@, cs[e.ord() as int].lits@[p])); } }
    assert(clean(a, cs2)) by { reveal(clean); assert forall|e: ClauseId, i: int| #![trigger cs2[e.ord() as int].lits@[i]] live(cs2, e) && 0 <= i < cs2[e.ord() as int].lits@.len() implies !a.gone(cs2[e.ord() as int].lits@[i].var() as int) by { assert(cs2[e.ord() as int].lits@ == cs[e.ord() as int].lits@); assert(!a.gone(cs[e.ord() as int].lits@[i].var() as int)); } }
    assert forall|m: Val| #[trigger] holds(m, a, cs) == holds(m, a, cs2) by { lem_sat_sets(m, cs, cs2); }
    lem_lasting_clauses(a, cs, cs2); lem_models_trans(a0, d0.clause@, a, cs, a, cs2);
}
/// clause c has been replaced by a part of it that follows
pub proof fn lem_viv_replaced(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, c: ClauseId, s: Seq<Lit>, r: RefClause, d1: ClauseDB, d2: ClauseDB)
    requires viv(a0, d0, a, d), complete(a, d.clause@), a.trail_lim@.len() == 0, live(d.clause@, c), s.len() >= 2, forall|x: Lit| #[trigger] s.contains(x) ==> d.lits(c).contains(x), forall|i: int| 0 <= i < s.len() ==> a.value((#[trigger] s[i]).var() as int).is_none(),
        forall|m: Val| #[trigger] holds(m, a, d.clause@) ==> satisfies(m, s),
        r is RegisteredClause || r is Clause, r matches RefClause::RegisteredClause(e) ==> d1 == d && live(d.clause@, e) && same_pair(d.lits(e), s) && e != c,
        r matches RefClause::Clause(e) ==> d1.added(&d, e, s) && d1.joined(&d, e, s) && d1.wf() && lbd_used(d.lbd_temp@, d1.lbd_temp@) && (d1.clause@[e.ord() as int].flags.learnt ==> d.clause@[c.ord() as int].flags.learnt && d.lits(c).len() > 2),
        d2.wf(), d2.removed(&d1, c), entries_from(d1.watch_cache@, d2.watch_cache@, c, Seq::<Lit>::empty())
    ensures viv(a0, d0, a, d2), complete(a, d2.clause@) {
    let cs = d.clause@; let cs1 = d1.clause@; let cs2 = d2.clause@; let k = c.ord() as int; let t = d.lits(c);
    assert(a.reads(s)) by { assert forall|i: int| 0 <= i < s.len() implies a.lit_ok(#[trigger] s[i]) by { assert(s.contains(s[i])); lem_has(a, d, c, s[i]); } }
    if let RefClause::Clause(e) = r {
        lem_added_ready(a, d, d1, e, s);
        assert(live(cs1, e)); assert(d1.lits(e) == s);
        assert forall|p: int| 0 <= p < 2 implies !fls(a, #[trigger] d1.lits(e)[p]) by { assert(a.value(s[p].var() as int).is_none()); }
        lem_added_open(a, d1, e); lem_models_added(a, cs, cs1, s);
        assert forall|m: Val| sat_all(m, cs) && #[trigger] agrees0(m, a) implies satisfies(m, s) by { assert(holds(m, a, cs)); }
        lem_lasting_added(a, d, d1, e, s);
        assert(clean(a, cs1)) by { reveal(clean); assert forall|f: ClauseId, i: int| #![trigger cs1[f.ord() as int].lits@[i]] live(cs1, f) && 0 <= i < cs1[f.ord() as int].lits@.len() implies !a.gone(cs1[f.ord() as int].lits@[i].var() as int) by {
            if f.ord() == e.ord() { assert(s.contains(s[i])); let h = choose|h: int| 0 <= h < t.len() && t[h] == s[i]; assert(!a.gone(cs[k].lits@[h].var() as int)); } else { assert(cs1[f.ord() as int] == cs[f.ord() as int]); assert(live(cs, f)); assert(!a.gone(cs[f.ord() as int].lits@[i].var() as int)); } } }
        assert(cs1[k] == cs[k]);
    }
    assert(shorter(d1, d2, c, seq![]));
    assert(from_ok(cs2)) by { assert forall|j: int| 0 <= j < cs2.len() implies (#[trigger] cs2[j]).search_from >= 2 by { if j != k { assert(cs2[j] == cs1[j]); } assert(cs1[j].search_from >= 2); } }
    lem_shorter_ready(a, d1, d2, c, seq![], 0, 0);
    let e = match r { RefClause::Clause(e) => e, RefClause::RegisteredClause(e) => e, _ => arbitrary() };
    assert(e.ord() != k && live(cs1, e) && cs2[e.ord() as int] == cs1[e.ord() as int]);
    assert forall|m: Val| satisfies(m, #[trigger] cs2[e.ord() as int].lits@) implies satisfies(m, t) by {
        let p = cs2[e.ord() as int].lits@; let i = choose|i: int| 0 <= i < p.len() && vtrue(m, #[trigger] p[i]);
        assert(s.contains(p[i])) by { if r is Clause { assert(p == s); } else { let h = if s[0] == p[i] { 0int } else { 1int }; assert(s[h] == p[i]); } }
        let j = choose|j: int| 0 <= j < t.len() && t[j] == p[i]; assert(vtrue(m, t[j])); }
    assert forall|m: Val| #[trigger] holds(m, a, cs1) == holds(m, a, cs2) by {
        if sat_all(m, cs1) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(cs2[j] == cs1[j]); } }
        if sat_all(m, cs2) { assert(satisfies(m, cs2[e.ord() as int].lits@)); assert forall|j: int| 0 <= j < cs1.len() && !(#[trigger] cs1[j]).dead() implies satisfies(m, cs1[j].lits@) by { if j != k { assert(cs2[j] == cs1[j]); } } } }
    assert(cs1[k] == cs[k]);
    assert(cs2[e.ord() as int].lits@.len() >= 2);
    assert forall|m: Val| #[trigger] perm_sat(m, cs2) && agrees0(m, a) && k < cs1.len() && perm(cs1[k]) implies satisfies(m, cs1[k].lits@) by { assert(perm(cs2[e.ord() as int])); lem_perm_lit(m, cs2, e.ord() as int); }
    lem_lasting_but(a, cs1, cs2, k);
    lem_models_trans(a, cs, a, cs1, a, cs2); lem_models_trans(a0, d0.clause@, a, cs, a, cs2);
    assert(complete(a, cs2)) by { reveal(complete); assert forall|f: ClauseId, p: int| #![trigger cs2[f.ord() as int].lits@[p]] live(cs2, f) && 0 <= p < 2 implies fine(a, cs2[f.ord() as int].lits@, cs2[f.ord() as int].lits@[p]) by { assert(f.ord() != k); assert(cs2[f.ord() as int] == cs1[f.ord() as int]); assert(live(cs1, f)); assert(fine(a, cs1[f.ord() as int].lits@, cs1[f.ord() as int].lits@[p])); } }
}
/// a literal has been fixed
pub proof fn lem_viv_unit(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, d2: ClauseDB, l: Lit)
    requires viv(a0, d0, a, d), complete(a, d.clause@), a.trail_lim@.len() == 0, a.lit_ok(l), a.value(l.var() as int).is_none(), a.asserts(&a2, l), a2.wf(), a2.queue_ok(), d2 == (ClauseDB { certification_store: d2.certification_store, ..d }), d2.wf(), forall|m: Val| #[trigger] holds(m, a, d.clause@) ==> vtrue(m, l)
    ensures viv(a0, d0, a2, d2), complete(a2, d2.clause@) {
    let cs = d.clause@; let v = l.var() as int; let r = AssignReason::None;
    assert(stepped(a, a2, l, r));
    lem_root_ready(a, a2, d, l, r); lem_root_unit(a, a2, cs, l);
    assert(more_root(a, a2)) by { assert forall|m: Val| #[trigger] agrees0(m, a2) implies agrees0(m, a) by { assert forall|w: int| 1 <= w <= a.nv() && (#[trigger] a.var@[w]).assign.is_some() && a.var@[w].level == 0 implies m(w) == a.var@[w].assign.unwrap() by { assert(a.value(w).is_some()); assert(a2.var@[w] == a.var@[w]); } } }
    lem_lasting_same(a, cs, a2); lem_models_trans(a0, d0.clause@, a, cs, a2, cs);
    assert(ready(a2, d2)) by { reveal(blockers_ok); }
    assert(clean(a2, cs)) by { reveal(clean); assert forall|e: ClauseId, i: int| #![trigger cs[e.ord() as int].lits@[i]] live(cs, e) && 0 <= i < cs[e.ord() as int].lits@.len() implies !a2.gone(cs[e.ord() as int].lits@[i].var() as int) by { let x = cs[e.ord() as int].lits@[i]; lem_lits(a, d, e, i); assert(!a.gone(x.var() as int)); if x.var() != v { assert(a2.var@[x.var() as int] == a.var@[x.var() as int]); } } }
    assert(a2.levels_below(a0.var@.len() as int)) by { assert forall|w: int| 0 <= w < a2.var@.len() implies (#[trigger] a2.var@[w]).level < a0.var@.len() by { assert(a.var@[w].level < a0.var@.len()); if w != v { assert(a2.var@[w] == a.var@[w]); } } }
}
/// the literals decided against are literals of the clause, the first n of it
pub open spec fn tried(ds: Seq<Lit>, s: Seq<Lit>, n: int) -> bool { forall|i: int| 0 <= i < ds.len() ==> neg_of(s, n, #[trigger] ds[i]) }
pub open spec fn neg_of(s: Seq<Lit>, n: int, x: Lit) -> bool { exists|j: int| 0 <= j < n && x == (#[trigger] s[j]).neg() }
/// the decisions so far on the clause c
pub open spec fn trial(a: AssignStack, d: ClauseDB, c: ClauseId, s: Seq<Lit>, ds: Seq<Lit>, n: int) -> bool {
    &&& live(d.clause@, c) && same_set(d.lits(c), s) && decided(a, ds) && tried(ds, s, n) && ds.len() <= n <= s.len() && (s.len() == 2 ==> ds.len() <= 1)
    &&& forall|i: int| 0 <= i < ds.len() ==> a.lit_ok(#[trigger] ds[i]) && tru(a, ds[i])
}
/// the second literal of a clause of two is not open any more
pub proof fn lem_second(a: AssignStack, d: ClauseDB, c: ClauseId, s: Seq<Lit>, ds: Seq<Lit>, n: int)
    requires ready(a, d), complete(a, d.clause@), a.q_head == a.trail@.len(), trial(a, d, c, s, ds, n), n < s.len(), a.value(s[n].var() as int).is_none(), s.len() == 2
    ensures ds.len() == 0 {
    if ds.len() > 0 {
        let cs = d.clause@; let t = d.lits(c); assert(neg_of(s, n, ds[0])); let j = choose|j: int| 0 <= j < n && ds[0] == (#[trigger] s[j]).neg(); assert(j == 0 && n == 1);
        assert(s.contains(s[0]) && s.contains(s[1])); assert(t.contains(s[0]) && t.contains(s[1])); lem_has(a, d, c, s[0]); lem_has(a, d, c, s[1]); lem_neg_props(s[0]);
        assert(fls(a, s[0])); assert(s[0] != s[1]);
        let p = choose|p: int| 0 <= p < t.len() && t[p] == s[0]; reveal(complete); assert(fine(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]));
        assert(!pend(a, s[0].var() as int));
        let y = choose|y: Lit| #[trigger] t.contains(y) && tru(a, y) && lev(a, y) <= lev(a, s[0]); assert(s.contains(y));
    }
}
/// what was decided stays while propagating
pub proof fn lem_trial_went(a: AssignStack, d: ClauseDB, a2: AssignStack, d2: ClauseDB, c: ClauseId, s: Seq<Lit>, ds: Seq<Lit>, n: int) requires ready(a, d), going(a, d, a2, d2), trial(a, d, c, s, ds, n) ensures trial(a2, d2, c, s, ds, n), d2.clause@[c.ord() as int].flags == d.clause@[c.ord() as int].flags, d2.clause@.len() == d.clause@.len() {
    reveal(same_sets); let t = d.lits(c); let t2 = d2.lits(c);
    assert(same_set(t, d2.clause@[c.ord() as int].lits@)); assert(same_set(t2, s)) by { assert forall|x: Lit| #[trigger] t2.contains(x) == s.contains(x) by { assert(t.contains(x) == s.contains(x)); } }
    lem_set_dead(d.clause@[c.ord() as int], d2.clause@[c.ord() as int]);
    assert forall|i: int| 0 <= i < ds.len() implies a2.trail@[a2.trail_lim@[i] as int] == #[trigger] ds[i] by { let k = a.trail_lim@[i] as int; assert(a.trail_lim@[i] < a.trail@.len()); assert(a2.trail@.take(a.trail@.len() as int)[k] == a.trail@[k]); }
    assert forall|i: int| 0 <= i < ds.len() implies a2.lit_ok(#[trigger] ds[i]) && tru(a2, ds[i]) by { assert(a.lit_ok(ds[i])); assert(a.var@[ds[i].var() as int].assign.is_some()); }
}
pub proof fn lem_trial_decide(a: AssignStack, d: ClauseDB, a2: AssignStack, c: ClauseId, s: Seq<Lit>, ds: Seq<Lit>, n: int)
    requires a.wf(), trial(a, d, c, s, ds, n), n < s.len(), a.lit_ok(s[n].neg()), a.value(s[n].neg().var() as int).is_none(), a.assigned_to(&a2, s[n].neg()), a2.trail_lim@ == a.trail_lim@.push(a.trail@.len() as usize), s.len() == 2 ==> ds.len() == 0
    ensures trial(a2, d, c, s, ds.push(s[n].neg()), n + 1) {
    let l = s[n].neg(); let e = ds.push(l); a.lem_levels();
    assert forall|i: int| 0 <= i < e.len() implies a2.trail@[a2.trail_lim@[i] as int] == #[trigger] e[i] by { if i < ds.len() { assert(ds[i] == e[i]); assert(a.trail_lim@[i] < a.trail@.len()); assert(a2.trail_lim@[i] == a.trail_lim@[i]); assert(a2.trail@[a.trail_lim@[i] as int] == a.trail@[a.trail_lim@[i] as int]); } else { assert(a2.trail_lim@[i] == a.trail@.len()); } }
    assert forall|i: int| 0 <= i < e.len() implies a2.lit_ok(#[trigger] e[i]) && tru(a2, e[i]) by { if i < ds.len() { assert(a.lit_ok(ds[i]) && tru(a, ds[i])); assert(a2.var@[e[i].var() as int] == a.var@[e[i].var() as int]); } }
    assert forall|i: int| 0 <= i < e.len() implies neg_of(s, n + 1, #[trigger] e[i]) by { if i < ds.len() { assert(ds[i] == e[i]); assert(neg_of(s, n, ds[i])); let j = choose|j: int| 0 <= j < n && ds[i] == (#[trigger] s[j]).neg(); assert(e[i] == s[j].neg()); } else { assert(e[i] == s[n].neg()); } }
}
pub proof fn lem_trial_next(a: AssignStack, d: ClauseDB, c: ClauseId, s: Seq<Lit>, ds: Seq<Lit>, n: int) requires trial(a, d, c, s, ds, n), n < s.len() ensures trial(a, d, c, s, ds, n + 1) {
    assert(tried(ds, s, n + 1)) by { assert forall|i: int| 0 <= i < ds.len() implies neg_of(s, n + 1, #[trigger] ds[i]) by { assert(neg_of(s, n, ds[i])); let j = choose|j: int| 0 <= j < n && ds[i] == (#[trigger] s[j]).neg(); assert(ds[i] == s[j].neg()); } } }
/// the conflicting clause is false, as the clauses have it
pub open spec fn broken(a: AssignStack, d: ClauseDB, conf: Seq<Lit>) -> bool { (forall|i: int| 0 <= i < conf.len() ==> a.lit_ok(#[trigger] conf[i]) && fls(a, conf[i])) && forall|m: Val| sat_all(m, d.clause@) ==> #[trigger] satisfies(m, conf) }
pub proof fn lem_broken(a: AssignStack, d: ClauseDB, l: Lit, r: AssignReason, conf: Seq<Lit>)
    requires ready(a, d), conflict_ok(a, d.clause@, l, r), match r { AssignReason::BinaryLink(k) => conf == seq![l, k.neg()], AssignReason::Implication(c) => conf == d.lits(c), _ => false }
    ensures broken(a, d, conf) {
    let cs = d.clause@;
    let c = match r { AssignReason::Implication(c) => c, AssignReason::BinaryLink(k) => choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == l || t[0] == l && t[1] == k.neg() }, _ => arbitrary() };
    let t = d.lits(c); assert(live(cs, c));
    assert forall|i: int| 0 <= i < conf.len() implies a.lit_ok(#[trigger] conf[i]) && fls(a, conf[i]) by { match r { AssignReason::BinaryLink(k) => { lem_neg_props(k); lem_lits(a, d, c, 0); lem_lits(a, d, c, 1); } _ => { lem_lits(a, d, c, i); assert(fls(a, t[i])); } } }
    assert forall|m: Val| sat_all(m, cs) implies #[trigger] satisfies(m, conf) by { assert(satisfies(m, t)); let h = choose|h: int| 0 <= h < t.len() && vtrue(m, #[trigger] t[h]); match r { AssignReason::BinaryLink(k) => { let i = if t[h] == l { 0int } else { 1int }; assert(conf[i] == t[h]); } _ => { assert(conf[h] == t[h]); } } }
}
/// after the trial has been taken back
pub proof fn lem_vec(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, c: ClauseId, s: Seq<Lit>, ds: Seq<Lit>, n: int, conf: Seq<Lit>, x: Seq<Lit>)
    requires viv(a0, d0, a, d), viv(a0, d0, a2, d), trial(a, d, c, s, ds, n), backed(a, a2), broken(a, d, conf), undone(a, ds, x), forall|m: Val| #[trigger] holds(m, a, d.clause@) && satisfies(m, conf) ==> satisfies(m, x)
    ensures forall|m: Val| #[trigger] holds(m, a2, d.clause@) ==> satisfies(m, x), a2.reads(x), forall|i: int| 0 <= i < x.len() ==> a2.value((#[trigger] x[i]).var() as int).is_none(), forall|y: Lit| #[trigger] x.contains(y) ==> d.lits(c).contains(y),
        x.len() >= 2 ==> legal(x, d.nl()) && d.lits(c).len() > 2, x.len() == 0 ==> hopeless(a0, d0.clause@) {
    let cs = d.clause@;
    assert forall|m: Val| #[trigger] holds(m, a2, cs) implies satisfies(m, x) by { assert(holds(m, a0, d0.clause@) == holds(m, a2, cs)); assert(holds(m, a0, d0.clause@) == holds(m, a, cs)); assert(satisfies(m, conf)); }
    assert forall|i: int| 0 <= i < x.len() implies a2.lit_ok(#[trigger] x[i]) && a2.value(x[i].var() as int).is_none() && s.contains(x[i]) by {
        assert(a.lit_ok(x[i])); assert(a2.var@[x[i].var() as int].level == a.var@[x[i].var() as int].level);
        let k = choose|k: int| 0 <= k < ds.len() && ds[k] == x[i].neg(); assert(neg_of(s, n, ds[k])); let j = choose|j: int| 0 <= j < n && ds[k] == (#[trigger] s[j]).neg(); lem_neg_props(x[i]); assert(s.contains(s[j])); assert(d.lits(c).contains(s[j])); lem_has(a, d, c, s[j]); lem_neg_props(s[j]); }
    assert forall|y: Lit| #[trigger] x.contains(y) implies d.lits(c).contains(y) by { let i = choose|i: int| 0 <= i < x.len() && x[i] == y; assert(s.contains(x[i])); }
    if x.len() == 0 { assert forall|m: Val| !#[trigger] holds(m, a2, cs) by { if holds(m, a2, cs) { assert(satisfies(m, x)); } } lem_hopeless(a0, d0.clause@, a2, cs); }
    if x.len() >= 2 {
        assert(s.len() != 2) by { if s.len() == 2 { let k = choose|k: int| 0 <= k < ds.len() && ds[k] == x[0].neg(); let h = choose|h: int| 0 <= h < ds.len() && ds[h] == x[1].neg(); assert(a.lit_ok(x[0]) && a.lit_ok(x[1])); assert(ds.contains(x[0].neg()) && ds.contains(x[1].neg())); lem_neg_props(x[0]); lem_neg_props(x[1]); assert(x[0].var() != x[1].var()); } }
        assert(legal(d.lits(c), d.nl()));
        assert(clause_ok(x)) by { assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).wf() by { assert(a.lit_ok(x[i])); } }
        lem_distinct_few(x, a.nv());
        assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).ord() < d.nl() by { assert(x.contains(x[i])); let h = choose|h: int| 0 <= h < d.lits(c).len() && d.lits(c)[h] == x[i]; lem_lits(a, d, c, h); }
    }
}
/// n + 1 different variables do not fit in 1..=n
pub proof fn lem_distinct_few(s: Seq<Lit>, n: int) requires 0 <= n, forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).var() <= n, forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).var() != (#[trigger] s[j]).var() ensures s.len() <= n {
    let t = Seq::new(s.len(), |i: int| s[i].var() as int);
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(s[i].var() != s[j].var()); } else { assert(s[j].var() != s[i].var()); } } }
    t.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(1, n + 1); vstd::set_lib::lemma_int_range(1, n + 1);
    assert(t.to_set().subset_of(r)) by { assert forall|v: int| #[trigger] t.to_set().contains(v) implies r.contains(v) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == v; assert(s[i].var() == v); } }
    vstd::set_lib::lemma_len_subset(t.to_set(), r);
}
/// the clauses have been cleared
pub proof fn lem_viv_cleared(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, a2: AssignStack, d2: ClauseDB) requires viv(a0, d0, a, d), rooted0(a, d, a2, d2) ensures viv(a0, d0, a2, d2) {
    lem_models_trans(a0, d0.clause@, a, d.clause@, a2, d2.clause@);
    assert(a2.levels_below(a0.var@.len() as int)) by { assert forall|w: int| 0 <= w < a2.var@.len() implies (#[trigger] a2.var@[w]).level < a0.var@.len() by { assert(a.var@[w].level < a0.var@.len()); } }
    assert forall|v: int| 0 <= v < a0.var@.len() implies (#[trigger] a2.var@[v]).flags.ca_seen == a0.var@[v].flags.ca_seen && a2.var@[v].flags.eliminated == a0.var@[v].flags.eliminated by { assert(a.var@[v].flags.ca_seen == a0.var@[v].flags.ca_seen); }
}
/// a conflict without a decision
pub proof fn lem_viv_lost(a0: AssignStack, d0: ClauseDB, a: AssignStack, d: ClauseDB, l: Lit, r: AssignReason) requires viv(a0, d0, a, d), a.trail_lim@.len() == 0, conflict_ok(a, d.clause@, l, r) ensures hopeless(a0, d0.clause@) { lem_no_way(a, d, l, r); lem_hopeless(a0, d0.clause@, a, d.clause@); }
/// at most n clauses more, and n more computations of an LBD
pub open spec fn spent(d0: ClauseDB, d: ClauseDB, n: int) -> bool { d.clause@.len() <= d0.clause@.len() + n && d.clause@.len() >= d0.clause@.len() && d.lbd_temp@[0] <= d0.lbd_temp@[0] + n }
/// stand-in: zeros
#[verifier::external_body]
pub fn verif_zeros(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { vec![0; n] }
pub fn verif_lits(s: &Vec<Lit>) -> (r: Vec<Lit>) ensures r@ == s@ { let mut r: Vec<Lit> = Vec::new(); let mut i = 0; while i < s.len() invariant i <= s@.len(), r@ =~= s@.take(i as int) decreases s@.len() - i { r.push(s[i]); i += 1; } assert(s@.take(i as int) =~= s@); r }
pub fn verif_pair(x: Lit, y: Lit) -> (r: Vec<Lit>) ensures r@ == seq![x, y] { let mut r: Vec<Lit> = Vec::new(); r.push(x); r.push(y); assert(r@ =~= seq![x, y]); r }
/// stand-in for select_targets: some clause numbers, at most one per clause
#[verifier::external_body]
pub fn verif_targets(a: &AssignStack, d: &ClauseDB) -> (r: Vec<ClauseId>) ensures r@.len() <= d.clause@.len() + 2 * a.var@.len(), forall|i: int| 0 <= i < r@.len() ==> 1 <= (#[trigger] r@[i]).ord() < d.clause@.len() { unimplemented!() }
"""


def unit():
    u = Unit("vivify")
    u_cdb.types(u)
    u.text(u_prop.DEFS)
    u.lemmas(u_prop.LEM)
    i, j = u_prop.SPEC2.index("pub proof fn lem_set_refl"), u_prop.SPEC2.index("pub proof fn lem_covered_set")
    u.lemmas(u_prop.SPEC2[i:j])
    i = u_prop.SPEC2.index("proof fn lem_not_pending")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("// ---- C10", i)])
    i = u_prop.SPEC2.index("// ---- all that holds while the literal p")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("pub proof fn lem_go_step", i)])
    i = u_prop.SPEC2.index("pub proof fn lem_counted")
    u.lemmas(u_prop.SPEC2[i:u_prop.SPEC2.index("\n}\n", i) + 3])
    i = u_learn.SPEC.index("pub open spec fn holds")
    u.text(u_learn.SPEC[i:u_learn.SPEC.index("\n", i) + 1])
    i = u_learn.SPEC.index("pub open spec fn room")
    u.text(u_learn.SPEC[i:u_learn.SPEC.index("\n", i) + 1])
    i = u_step.SPEC.index("/// the same models, with what is fixed")
    u.lemmas(u_step.SPEC[i:u_step.SPEC.index("pub proof fn lem_cancel_ready", i)])
    i = u_step.SPEC.index("// ---- a clause has been added")
    u.lemmas(u_step.SPEC[i:u_step.SPEC.index("/// marks do not matter", i)])
    u.lemmas(u_step.LAST)
    u.lemmas(u_root.SPEC)
    u.assume(clause.CONTAINS, "<[Lit]>::contains tells membership (contract of the standard library)")
    u.text(SPEC)
    u.text(SPEC2)
    A, D, P, R, L = u_assign.unit(), u_cdb.unit(), u_prop.unit(), u_root.unit(), u_learn.unit()
    u.uses(A, ["AssignStack::assign_at_root_level", "AssignStack::assign_by_decision", "AssignStack::backtrack_sandbox", "AssignStack::assigned"])
    u.uses(D, ["Clause::is_dead", "Clause::is", "ClauseDB::at", "ClauseDB::at_mut", "ClauseDB::new_clause", "ClauseDB::remove_clause", "ClauseDB::certificate_add_assertion"])
    u.uses(P, ["AssignStack::propagate_sandbox"])
    u.uses(R, ["AssignStack::remains", "AssignStack::clear_asserted_literals"])
    u.uses(L, ["AssignStack::reason"])
    f = u.fn
    V = "cdb::vivify"
    u.const(V, None, "VIVIFY_LIMIT")
    f("assign::stack", "impl AssignIF for AssignStack", "len_upto", into="AssignStack", subst=[("self . trail_lim . get ( n as usize ) . map_or ( 0 , | n | * n )", "match self . trail_lim . get ( n as usize ) { Some ( n ) => * n , None => 0 }", 1)], spec="ensures r == (if n < self.trail_lim@.len() { self.trail_lim@[n as int] as int } else { 0 })")
    f(V, "impl Clause", "vivified", into="Clause", spec="ensures *final(self) == (Clause { used: 0, ..*old(self) })")
    f(V, "impl AssignStack", "analyze_sandbox", into="AssignStack", nloops=3,
      subst=CDBSIG + [("decisions : & [ Lit ]", "decisions : & Vec < Lit >"), ("conflicting : & [ Lit ]", "conflicting : & Vec < Lit >"), ("seen : & mut [ usize ]", "seen : & mut Vec < usize >"),
        ("for l in conflicting {", "for verif_k in 0 .. conflicting . len ( ) { let l = & conflicting [ verif_k ] ;", 1),
        ("for l in self . stack_iter ( ) . skip ( self . len_upto ( 0 ) ) . rev ( ) {", "let verif_lo = self . len_upto ( 0 ) ; let mut verif_p = self . trail . len ( ) ; while verif_lo < verif_p { verif_p -= 1 ; let l = & self . trail [ verif_p ] ;", 1),
        ("decisions . contains ( l )", "decisions . as_slice ( ) . contains ( l )", 1),
        ("for r in cdb [ cid ] . iter ( ) . skip ( 1 ) {", "for verif_k in 1 .. cdb . at ( cid ) . lits . len ( ) { let r = & cdb . at ( cid ) . lits [ verif_k ] ;", 1)] + AT,
      drop=[("let last_decision = decisions . last ( ) . unwrap ( ) ;", "", "used in debug assertions only"), ("let from = $$e ;", "", "used in debug assertions only"), ("let all = $$e ;", "", "used in debug assertions only"), ("let assumes = $$e ;", "", "used in debug assertions only")],
      spec="""requires ready(*self, *cdb), self.trail_lim@.len() > 0, old(seen)@.len() == self.var@.len(), decided(*self, decisions@), forall|i: int| 0 <= i < conflicting@.len() ==> self.lit_ok(#[trigger] conflicting@[i]) && fls(*self, conflicting@[i])
    ensures final(seen)@.len() == old(seen)@.len(), undone(*self, decisions@, r@), forall|m: Val| #[trigger] holds(m, *self, cdb.clause@) && satisfies(m, conflicting@) ==> satisfies(m, r@)""",
      loops={0: {"attr": "#[verifier::loop_isolation(false)]", "it": "it", "inv": "invariant it.iter.end == conflicting@.len(), seen@.len() == self.var@.len(), forall|i: int| 0 <= i < it.index() ==> seen@[(#[trigger] conflicting@[i]).var() as int] == key,", "top": "proof { assert(self.lit_ok(conflicting@[verif_k as int])); }",
                 "after": "let ghost mut js: Seq<int> = Seq::empty(); proof { lem_trace_start(*self, cdb.clause@, conflicting@, seen@, key); }"},
             1: {"attr": "#[verifier::loop_isolation(false)]", "inv": """invariant verif_lo == self.trail_lim@[0], verif_lo <= verif_p <= self.trail@.len(), seen@.len() == self.var@.len(), undone_at(*self, learnt@, js, verif_p as int), forall|i: int| 0 <= i < learnt@.len() ==> decisions@.contains(#[trigger] learnt@[i].neg()),
                    traced(*self, cdb.clause@, conflicting@, learnt@, seen@, key, verif_p as int), decreases verif_p,""",
                 "top": "let ghost s0 = seen@; let ghost l0 = learnt@;",
                 "bottom": ""},
             2: {"attr": "#[verifier::loop_isolation(false)]", "it": "it", "inv": "invariant it.iter.end == cdb.lits(cid).len(), seen@.len() == self.var@.len(), forall|v: int| 0 <= v < s0.len() && s0[v] == key ==> #[trigger] seen@[v] == key, forall|j: int| 1 <= j < it.index() + 1 ==> seen@[(#[trigger] cdb.lits(cid)[j]).var() as int] == key,", "top": "proof { lem_lits(*self, *cdb, cid, verif_k as int); }"}},
      ghost=[("after", "let l = & self . trail [ verif_p ] ;", "proof { assert(self.trail_lim@[0] < self.trail@.len()); assert(self.lit_ok(*l)); assert(self.lev_at(verif_p as int)); reveal(all_explained); assert(lev(*self, *l) > 0); assert(explained(*self, cdb.clause@, verif_p as int)); lem_neg_props(*l); }"),
        ("before", "continue ;", "proof { lem_trace_step(*self, *cdb, conflicting@, l0, s0, key, verif_p as int, learnt@, seen@); }"),
        ("after", "learnt . push ( ! * l ) ;", "proof { js = js.push(verif_p as int); }"),
        ("before", "match self . reason ( l . vi ( ) )", "proof { if self.var@[l.var() as int].reason is Decision { lem_decided(*self, decisions@, verif_p as int); } }"),
        ("after_stmt", "match self . reason ( l . vi ( ) )", "proof { lem_trace_step(*self, *cdb, conflicting@, l0, s0, key, verif_p as int, learnt@, seen@); }"),
        ("before", "if learnt . is_empty ( )", "proof { lem_undone(*self, decisions@, learnt@, js); lem_trace_end(*self, cdb.clause@, conflicting@, learnt@, seen@, key); }")])
    MAPERR = "match asg . propagate_sandbox ( self ) { Ok ( _ ) => { } Err ( verif_x ) => { return Err ( SolverError :: RootLevelConflict ( verif_x ) ) ; } }"
    stat = "statistics and display"
    LOST = "proof { lem_viv_went(a0, d0, a%d, d%d, *asg, *self); lem_viv_lost(a0, d0, *asg, *self, verif_x.0, verif_x.1); }"
    f(V, "impl VivifyIF for ClauseDB", "vivify", into="ClauseDB", nloops=2,
      subst=[(", state : & mut State", "", 1), ("asg . propagate_sandbox ( self ) . map_err ( | cc | $b ) ? ;", MAPERR, 1), ("asg . propagate_sandbox ( self ) . map_err ( SolverError :: RootLevelConflict ) ? ;", MAPERR, 2),
        ("let mut clauses : Vec < OrderedProxy < ClauseId >> = select_targets ( $$a ) ;", "let mut clauses : Vec < ClauseId > = verif_targets ( asg , self ) ;", 1),
        ("let mut seen : Vec < usize > = $$e ;", "let mut seen : Vec < usize > = verif_zeros ( asg . num_vars + 1 ) ;", 1), ("let mut num_check = 0 ;", "let mut num_check : usize = 0 ;", 1),
        ("while let Some ( cp ) = clauses . pop ( ) {", "loop { let verif_cp = clauses . pop ( ) ; if verif_cp . is_none ( ) { break ; } let cp = verif_cp . unwrap ( ) ;", 1), ("cp . to ( )", "cp", 1),
        ("let c = & mut self [ cid ] ;", "let c = self . at_mut ( cid ) ;", 1), ("let clits = c . iter ( ) . copied ( ) . collect :: < Vec < Lit >> ( ) ;", "let clits = verif_lits ( & c . lits ) ;", 1),
        ("for lit in clits . iter ( ) . copied ( ) {", "let mut verif_k : usize = 0 ; while verif_k < clits . len ( ) { let lit = clits [ verif_k ] ; verif_k += 1 ;", 1),
        ("if let Err ( cc ) = asg . propagate_sandbox ( self ) {", "let verif_e = asg . propagate_sandbox ( self ) ; if let Err ( cc ) = verif_e {", 1),
        ("let cnfl_lits = :: alloc :: boxed :: box_assume_init_into_vec_unsafe ( :: alloc :: intrinsics :: write_box_via_move ( :: alloc :: boxed :: Box :: new_uninit ( ) , [ $$x ] ) ) ;", "let cnfl_lits = verif_pair ( $$x ) ;", 1),
        ("let cnfl_lits = & self [ ci ] . iter ( ) . copied ( ) . collect :: < Vec < Lit >> ( ) ;", "let verif_t = verif_lits ( & self . at ( ci ) . lits ) ; let cnfl_lits = & verif_t ;", 1),
        ("cnfl_lits . contains ( & clits [ $k ] )", "cnfl_lits . as_slice ( ) . contains ( & clits [ $k ] )", 2),
        ("asg . assign_at_root_level ( vec [ 0 ] ) ? ;", "let verif_r = asg . assign_at_root_level ( vec [ 0 ] ) ; match verif_r { Ok ( _ ) => { } Err ( verif_x ) => { return Err ( verif_x ) ; } }", 1),
        ("self . new_clause ( asg , & mut vec , is_learnt ) ;", "let verif_c = self . new_clause ( asg , & mut vec , is_learnt ) ;", 1),
        ("asg . clear_asserted_literals ( self ) ? ;", "match asg . clear_asserted_literals ( self ) { Ok ( _ ) => { } Err ( verif_x ) => { return Err ( verif_x ) ; } }", 1)],
      drop=[("const NUM_TARGETS : $$t = $$e ;", "", stat), ("state [ $$x ] += $$y ;", "", stat), ("let num_target = clauses . len ( ) ;", "", stat), ("let display_step : usize = 1000 ;", "", stat), ("let mut to_display = 0 ;", "", stat), ("if to_display <= num_check $b", "", stat), ("let mut num_shrink = 0 ;", "", stat), ("let mut num_assert = 0 ;", "", stat), ("num_assert += 1 ;", "", stat), ("num_shrink += 1 ;", "", stat), ("state . flush ( $$a ) ;", "", stat), ("state . log ( $$a ) ;", "", stat)],
      spec="""requires ready(*old(asg), *old(self)), complete(*old(asg), old(self).clause@), old(asg).trail_lim@.len() == 0, clean(*old(asg), old(self).clause@), old(self).lbd_temp@.len() == old(asg).var@.len(), old(asg).levels_below(old(self).lbd_temp@.len() as int), room(*old(self), 0x1_0000_0000), 2 * old(self).clause@.len() + 2 * old(asg).var@.len() < 0x7fff_ffff, old(asg).num_vars + 1 == old(asg).var@.len()
    ensures r.is_ok() ==> viv(*old(asg), *old(self), *final(asg), *final(self)) && final(asg).trail_lim@.len() == 0 && complete(*final(asg), final(self).clause@) && final(asg).q_head == final(asg).trail@.len(),
        r.is_err() ==> hopeless(*old(asg), old(self).clause@)""",
      pre="let ghost a0 = *asg; let ghost d0 = *self; proof { assert(viv(a0, d0, a0, d0)); }",
      loops={0: {"attr": "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", "inv": """invariant viv(a0, d0, *asg, *self), complete(*asg, self.clause@), clauses@.len() <= n0, forall|i: int| 0 <= i < clauses@.len() ==> 1 <= (#[trigger] clauses@[i]).ord() < d0.clause@.len(), spent(d0, *self, n0 - clauses@.len()), num_check <= n0 - clauses@.len(), seen@.len() == a0.var@.len(),
            decreases clauses@.len(),"""},
             1: {"attr": "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", "inv": """invariant viv(a0, d0, *asg, *self), complete(*asg, self.clause@), spent(d0, *self, n0 - clauses@.len() - 1), seen@.len() == a0.var@.len(), trial(*asg, *self, cid, clits@, decisions@, verif_k as int), self.clause@[cid.ord() as int].flags.learnt == is_learnt, asg.q_head == asg.trail@.len(),
            decreases clits@.len() - verif_k,"""}},
      ghost=[("before", "match asg . propagate_sandbox", "let ghost a1 = *asg; let ghost d1 = *self;", 0), ("before", "return Err ( SolverError :: RootLevelConflict ( verif_x ) )", LOST % (1, 1), 0),
        ("before", "let mut clauses", "proof { if a0.q_head < a0.trail@.len() { lem_viv_went(a0, d0, a0, d0, *asg, *self); } }"),
        ("before", "if clauses . is_empty ( )", "let ghost n0 = clauses@.len() as int;"),
        ("before", "asg . backtrack_sandbox ( ) ;", "let ghost a2 = *asg; let ghost d2 = *self;", 0), ("after", "asg . backtrack_sandbox ( ) ;", "let ghost a3 = *asg; proof { assert(backed(a2, a3)); if a2.trail_lim@.len() > 0 { lem_complete_below(a2, d2); } lem_viv_back(a0, d0, a2, d2, a3); }", 0),
        ("before", "return Err ( SolverError :: RootLevelConflict ( verif_x ) )", LOST % (3, 2), 1),
        ("before", "let cid = cp ;", "proof { if a3.q_head < a3.trail@.len() { lem_viv_went(a0, d0, a3, d2, *asg, *self); } } let ghost d4 = *self;"),
        ("before", "seen [ 0 ] = num_check ;", "proof { conf = cnfl_lits@; lem_broken(a8, d8, cc.0, cc.1, conf); }", 0),
        ("before", "seen [ 0 ] = num_check ;", "proof { conf = cnfl_lits@; lem_broken(a8, d8, cc.0, cc.1, conf); }", 1),
        ("before", "continue 'next_clause ;", "proof { assert(backed(a8, *asg)); lem_viv_back(a0, d0, a8, d8, *asg); }", 0),
        ("before", "continue 'next_clause ;", "proof { assert(backed(a8, *asg)); lem_viv_back(a0, d0, a8, d8, *asg); }", 1),
        ("before", "match vec . len ( )", "let ghost a9 = *asg; let ghost xs = vec@; proof { assert(backed(a8, a9)); lem_viv_back(a0, d0, a8, d8, a9); lem_vec(a0, d0, a8, d8, a9, cid, clits@, decisions@, verif_k as int, conf, xs); }"),
        ("before", "self . certificate_add_assertion", "proof { assert(a9.reads(xs)); assert(a9.lit_ok(xs[0])); assert(a9.value(xs[0].var() as int).is_none()); }"),
        ("before", "match verif_r", "proof { let s = choose|s: AssignStack| s.wf() && (a9.queue_ok() ==> s.queue_ok()) && a9.cancels(&s, 0) && s.trail_lim@.len() == 0 && #[trigger] s.asserts(asg, xs[0]); assert(s == a9); assert forall|m: Val| #[trigger] holds(m, a9, d8.clause@) implies vtrue(m, xs[0]) by { assert(satisfies(m, xs)); } lem_viv_unit(a0, d0, a9, d8, *asg, *self, xs[0]); }"),
        ("before", "self . remove_clause ( cid )", "let ghost d11 = *self;"),
        ("after", "self . remove_clause ( cid ) ;", "proof { lem_viv_replaced(a0, d0, a9, d8, cid, xs, verif_c, d11, *self); }"),
        ("before", "asg . backtrack_sandbox ( ) ;", "let ghost b2 = *asg; let ghost e2 = *self;", 5), ("after", "asg . backtrack_sandbox ( ) ;", "let ghost b3 = *asg; proof { assert(backed(b2, b3)); if b2.trail_lim@.len() > 0 { lem_complete_below(b2, e2); } lem_viv_back(a0, d0, b2, e2, b3); }", 5),
        ("before", "return Err ( SolverError :: RootLevelConflict ( verif_x ) )", (LOST % (0, 0)).replace("a0, d0, a0, d0", "a0, d0, b3, e2"), 2),
        ("before", "match asg . clear_asserted_literals", "let ghost b4 = *asg; let ghost e4 = *self; proof { if b3.q_head < b3.trail@.len() { lem_viv_went(a0, d0, b3, e2, b4, e4); } }"),
        ("before", "return Err ( verif_x )", "proof { lem_hopeless(a0, d0.clause@, b4, e4.clause@); }", 1),
        ("before", "Ok ( ( ) )", "proof { lem_viv_cleared(a0, d0, b4, e4, *asg, *self); }", 1),
        ("after", "let clits = verif_lits ( & c . lits ) ;", "let ghost d5 = *self; "),
        ("before", "continue ;", "proof { lem_viv_used(a0, d0, *asg, d4, *self, cid); }", 0),
        ("before", "num_check += 1 ;", "proof { lem_viv_used(a0, d0, *asg, d4, *self, cid); }"),
        ("before", "match asg . assigned ( ! lit )", "let ghost k0 = verif_k - 1; proof { lem_trial_next(*asg, *self, cid, clits@, decisions@, k0); assert(clits@.contains(clits@[k0])); lem_has(*asg, *self, cid, lit); lem_neg_props(lit); } let ghost a6 = *asg; let ghost d6 = *self; let ghost ds0 = decisions@;"),
        ("before", "let verif_e =", "let ghost a7 = *asg; proof { if clits@.len() == 2 { lem_second(a6, d6, cid, clits@, ds0, k0); } lem_viv_decide(a0, d0, a6, d6, a7, lit.neg()); lem_trial_decide(a6, d6, a7, cid, clits@, ds0, k0); }"),
        ("after", "let verif_e = asg . propagate_sandbox ( self ) ;", "let ghost a8 = *asg; let ghost d8 = *self; proof { lem_viv_went(a0, d0, a7, d6, a8, d8); lem_trial_went(a7, d6, a8, d8, cid, clits@, decisions@, verif_k as int); } let ghost mut conf: Seq<Lit> = Seq::empty();"),
        ])
    return u
