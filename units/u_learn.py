"""conflict analysis: the learnt clause follows, is false and asserting (C06)"""
import u_assign
import u_cdb
import u_prop
from clause import AT, CDBSIG
from unit import Unit

RLIMIT = 100

SPEC = r"""
// ---- conflict analysis
pub open spec fn seen(a: AssignStack, v: int) -> bool { a.var@[v].flags.ca_seen }
pub open spec fn unseen(a: AssignStack) -> bool { forall|v: int| 0 <= v <= a.nv() ==> !#[trigger] seen(a, v) }
/// b with other marks (CA_SEEN and USED) on its variables
pub open spec fn marked(a: AssignStack, b: AssignStack) -> bool {
    &&& a == (AssignStack { var: a.var, ..b }) && a.var@.len() == b.var@.len()
    &&& forall|v: int| 0 <= v < b.var@.len() ==> #[trigger] a.var@[v] == (Var { flags: FlagVar { ca_seen: a.var@[v].flags.ca_seen, used: a.var@[v].flags.used, ..b.var@[v].flags }, ..b.var@[v] })
}
/// m is a model of the clauses that respects what is fixed at level 0
pub open spec fn holds(m: Val, a: AssignStack, cs: Seq<Clause>) -> bool { sat_all(m, cs) && forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() && a.var@[v].level == 0 ==> m(v) == a.var@[v].assign.unwrap() }
/// d is e but for the counters of use, the ranks and the buffer of the LBD computation
pub open spec fn same_from(cs: Seq<Clause>, cs2: Seq<Clause>) -> bool { forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs2[j]).search_from == cs[j].search_from }
pub open spec fn touched(d: ClauseDB, e: ClauseDB) -> bool { same_clauses(e.clause@, d.clause@) && same_from(e.clause@, d.clause@) && d == (ClauseDB { clause: d.clause, lbd_temp: d.lbd_temp, ..e }) && d.lbd_temp@.len() == e.lbd_temp@.len() }
pub open spec fn room(d: ClauseDB, k: int) -> bool { d.stamped() && d.lbd_temp@[0] + k < 0x4000_0000_0000_0000 }
/// what conflict analysis starts from
pub open spec fn analyzable(a: AssignStack, d: ClauseDB) -> bool {
    a.wf() && a.queue_ok() && d.wf() && sized(a, d) && all_explained(a, d.clause@) && complete_below(a, d.clause@) && a.trail_lim@.len() > 0 && d.lbd_temp@.len() == a.var@.len() && a.levels_below(d.lbd_temp@.len() as int)
}
/// the literals of r's clause other than the first, in the order of the code
pub open spec fn rest_lit(cs: Seq<Clause>, r: AssignReason, j: int) -> Lit { match r { AssignReason::BinaryLink(k) => k.neg(), AssignReason::Implication(c) => cs[c.ord() as int].lits@[j + 1], _ => arbitrary() } }
pub open spec fn rest_len(cs: Seq<Clause>, r: AssignReason) -> int { match r { AssignReason::BinaryLink(k) => 1, AssignReason::Implication(c) => cs[c.ord() as int].lits@.len() - 1, _ => 0 } }
pub open spec fn known(a: AssignStack, d: ClauseDB, r: AssignReason) -> bool { match r { AssignReason::BinaryLink(k) => a.lit_ok(k), AssignReason::Implication(c) => live(d.clause@, c), _ => false } }
/// all of them are false, through assignments before number i
pub open spec fn rest_false(a: AssignStack, cs: Seq<Clause>, r: AssignReason, i: int) -> bool { forall|j: int| 0 <= j < rest_len(cs, r) ==> rest_at(a, cs, r, i, j) }
pub open spec fn rest_at(a: AssignStack, cs: Seq<Clause>, r: AssignReason, i: int, j: int) -> bool { let x = rest_lit(cs, r, j); a.lit_ok(x) && fls(a, x) && !after(a, i, x.var() as int) }
pub open spec fn rest_true(m: Val, cs: Seq<Clause>, r: AssignReason, n: int) -> bool { exists|j: int| n <= j < rest_len(cs, r) && vtrue(m, #[trigger] rest_lit(cs, r, j)) }
/// m makes some learnt literal true, or contradicts the assignment of a marked variable of the current level
pub open spec fn split(m: Val, a: AssignStack, s: Seq<Lit>) -> bool { (exists|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i])) || (exists|v: int| 1 <= v <= a.nv() && #[trigger] seen(a, v) && a.var@[v].level == a.trail_lim@.len() && m(v) != a.var@[v].assign.unwrap()) }
/// the invariant: what has been collected, together with what remains of the clause r, follows from the clauses
#[verifier::opaque]
pub open spec fn implied(a0: AssignStack, cs: Seq<Clause>, a: AssignStack, s: Seq<Lit>, r: AssignReason, n: int) -> bool { forall|m: Val| #[trigger] holds(m, a0, cs) ==> split(m, a, s) || rest_true(m, cs, r, n) }
/// the literals collected: false at lower levels, each once, and just those of the marked variables of lower levels
pub open spec fn collected(a0: AssignStack, a: AssignStack, s: Seq<Lit>) -> bool {
    &&& s.len() > 0
    &&& forall|i: int| 1 <= i < s.len() ==> a0.lit_ok(#[trigger] s[i]) && fls(a0, s[i]) && 0 < lev(a0, s[i]) < a0.trail_lim@.len() && seen(a, s[i].var() as int)
    &&& forall|i: int, j: int| 1 <= i < j < s.len() ==> (#[trigger] s[i]).var() != (#[trigger] s[j]).var()
    &&& forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(a, v) && a0.var@[v].level != a0.trail_lim@.len() ==> contains_var(s.skip(1), v)
}
/// the marked variables of the current level: n of them, all assigned before number i
pub open spec fn open_vars(a0: AssignStack, a: AssignStack, q: Set<int>, n: int, i: int) -> bool {
    &&& q.len() == n && !seen(a, 0)
    &&& forall|v: int| #[trigger] q.contains(v) <==> 1 <= v <= a0.nv() && seen(a, v) && a0.var@[v].level == a0.trail_lim@.len()
    &&& forall|v: int| #[trigger] q.contains(v) ==> a0.value(v).is_some() && !after(a0, i, v)
}
pub proof fn lem_open_bound(a0: AssignStack, a: AssignStack, q: Set<int>, n: int, i: int) requires open_vars(a0, a, q, n, i), a0.wf() ensures n <= a0.nv() < 0x4000_0000 {
    vstd::set_lib::lemma_int_range(1, a0.nv() + 1);
    assert(q.subset_of(vstd::set_lib::set_int_range(1, a0.nv() + 1)));
    vstd::set_lib::lemma_len_subset(q, vstd::set_lib::set_int_range(1, a0.nv() + 1));
}
/// l (of the current level, or a lower one) has been marked
pub proof fn lem_mark(a0: AssignStack, a: AssignStack, a2: AssignStack, v: int)
    requires marked(a, a0), marked(a2, a0), 1 <= v <= a0.nv(), seen(a2, v), forall|w: int| 0 <= w <= a0.nv() && w != v ==> #[trigger] seen(a2, w) == seen(a, w)
    ensures forall|m: Val, s: Seq<Lit>| #[trigger] split(m, a, s) ==> split(m, a2, s) {
    assert forall|m: Val, s: Seq<Lit>| #[trigger] split(m, a, s) implies split(m, a2, s) by {
        if !(exists|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i])) {
            let w = choose|w: int| 1 <= w <= a.nv() && #[trigger] seen(a, w) && a.var@[w].level == a.trail_lim@.len() && m(w) != a.var@[w].assign.unwrap();
            assert(seen(a2, w));
        }
    }
}
/// literal number n of the clause r has been looked at
pub proof fn lem_looked(a0: AssignStack, cs: Seq<Clause>, a: AssignStack, a2: AssignStack, s: Seq<Lit>, s2: Seq<Lit>, r: AssignReason, n: int)
    requires implied(a0, cs, a, s, r, n), 0 <= n < rest_len(cs, r), marked(a, a0), marked(a2, a0), collected(a0, a2, s2), s.len() > 0, ({
        let x = rest_lit(cs, r, n); let v = x.var() as int;
        &&& a0.lit_ok(x) && fls(a0, x)
        &&& (s2 == s && (lev(a0, x) == 0 || seen(a, v)) && (forall|w: int| 0 <= w <= a0.nv() ==> #[trigger] seen(a2, w) == seen(a, w))
            || seen(a2, v) && (forall|w: int| 0 <= w <= a0.nv() && w != v ==> #[trigger] seen(a2, w) == seen(a, w)) && (s2 == s && lev(a0, x) == a0.trail_lim@.len() || s2 == s.push(x)))
    }),
    ensures implied(a0, cs, a2, s2, r, n + 1) {
    reveal(implied);
    let x = rest_lit(cs, r, n); let v = x.var() as int;
    assert forall|m: Val| #[trigger] holds(m, a0, cs) implies split(m, a2, s2) || rest_true(m, cs, r, n + 1) by {
        if split(m, a, s) {
            if exists|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i]) { let i = choose|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(s2[i] == s[i]); }
            else { let w = choose|w: int| 1 <= w <= a.nv() && #[trigger] seen(a, w) && a.var@[w].level == a.trail_lim@.len() && m(w) != a.var@[w].assign.unwrap(); assert(seen(a2, w)); }
        } else {
            let j = choose|j: int| n <= j < rest_len(cs, r) && vtrue(m, #[trigger] rest_lit(cs, r, j));
            if j == n {
                assert(m(v) != a0.var@[v].assign.unwrap());
                if s2 == s.push(x) { assert(vtrue(m, s2[s.len() as int])); }
                else if lev(a0, x) == 0 { assert(a0.var@[v].level == 0); assert(false); }
                else {
                    assert(seen(a2, v));
                    if lev(a0, x) != a0.trail_lim@.len() { assert(contains_var(s2.skip(1), v)); let i = choose|i: int| 0 <= i < s2.skip(1).len() && (#[trigger] s2.skip(1)[i]).var() == v; assert(s2[i + 1].var() == v); lem_same_var(s2[i + 1], x); assert(s2[i + 1] == x); }
                }
            }
        }
    }
}
/// the next marked variable of the current level, p, is resolved on
pub proof fn lem_popped(a0: AssignStack, d: ClauseDB, a: AssignStack, a2: AssignStack, s: Seq<Lit>, r: AssignReason, i: int, r2: AssignReason)
    requires implied(a0, d.clause@, a, s, r, rest_len(d.clause@, r)), analyzable(a0, d), marked(a, a0), marked(a2, a0), 0 <= i < a0.trail@.len(), ({ let p = a0.trail@[i]; 
        &&& lev(a0, p) == a0.trail_lim@.len() && r2 == a0.var@[p.var() as int].reason && !(r2 is Decision)
        &&& forall|w: int| 0 <= w <= a0.nv() && w != p.var() ==> #[trigger] seen(a2, w) == seen(a, w) })
    ensures implied(a0, d.clause@, a2, s, r2, 0), known(a0, d, r2), rest_false(a0, d.clause@, r2, i), r2 is BinaryLink ==> lev(a0, rest_lit(d.clause@, r2, 0)) == a0.trail_lim@.len() {
    reveal(implied);
    let cs = d.clause@; let p = a0.trail@[i]; assert(a0.lit_ok(p)); assert(tru(a0, p));
    assert(explained(a0, cs, i)) by { reveal(all_explained); }
    assert forall|j: int| 0 <= j < rest_len(cs, r2) implies rest_at(a0, cs, r2, i, j) by {
        match r2 { AssignReason::BinaryLink(k) => { lem_neg_props(k); } AssignReason::Implication(c) => { lem_lits(a0, d, c, j + 1); } _ => {} } }
    match r2 { AssignReason::BinaryLink(k) => { lem_neg_props(k); lem_same_level(a0, d, p, k); } _ => {} }
    assert forall|m: Val| #[trigger] holds(m, a0, cs) implies split(m, a2, s) || rest_true(m, cs, r2, 0) by {
        assert(!rest_true(m, cs, r, rest_len(cs, r)));
        if !(exists|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i])) {
            let w = choose|w: int| 1 <= w <= a.nv() && #[trigger] seen(a, w) && a.var@[w].level == a.trail_lim@.len() && m(w) != a.var@[w].assign.unwrap();
            if w == p.var() { lem_resolve(a0, d, p, r2, m); } else { assert(seen(a2, w)); }
        }
    }
}
/// a model of the clauses that makes p false makes another literal of p's reason true
pub proof fn lem_resolve(a0: AssignStack, d: ClauseDB, p: Lit, r: AssignReason, m: Val)
    requires d.wf(), sized(a0, d), a0.lit_ok(p), holds(m, a0, d.clause@), known(a0, d, r), !vtrue(m, p), match r { AssignReason::BinaryLink(k) => paired(d.clause@, k.neg(), p), AssignReason::Implication(c) => d.lits(c)[0] == p, _ => false }
    ensures rest_true(m, d.clause@, r, 0) {
    let cs = d.clause@;
    match r {
        AssignReason::BinaryLink(k) => {
            let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == p || t[0] == p && t[1] == k.neg() };
            let t = cs[c.ord() as int].lits@; assert(satisfies(m, t)); let j = choose|j: int| 0 <= j < t.len() && vtrue(m, #[trigger] t[j]);
            assert(t[j] == k.neg()); assert(vtrue(m, rest_lit(cs, r, 0)));
        }
        AssignReason::Implication(c) => { let t = cs[c.ord() as int].lits@; assert(satisfies(m, t)); let j = choose|j: int| 0 <= j < t.len() && vtrue(m, #[trigger] t[j]); assert(j > 0); assert(vtrue(m, rest_lit(cs, r, j - 1))); }
        _ => {}
    }
}
/// the conflict to start from
pub proof fn lem_begin(a0: AssignStack, d: ClauseDB, a: AssignStack, s: Seq<Lit>, p: Lit, r: AssignReason)
    requires analyzable(a0, d), conflict_ok(a0, d.clause@, p, r), a0.lit_ok(p), marked(a, a0), seen(a, p.var() as int)
    ensures implied(a0, d.clause@, a, s, r, 0), known(a0, d, r), rest_false(a0, d.clause@, r, a0.trail@.len() as int), lev(a0, p) == a0.trail_lim@.len(), fls(a0, p), rest_len(d.clause@, r) > 0, lev(a0, rest_lit(d.clause@, r, 0)) == a0.trail_lim@.len() {
    let cs = d.clause@; let n = a0.trail@.len() as int;
    lem_at_top(a0, d, p, r);
    assert forall|j: int| 0 <= j < rest_len(cs, r) implies rest_at(a0, cs, r, n, j) by {
        match r { AssignReason::BinaryLink(k) => { lem_neg_props(k); } AssignReason::Implication(c) => { lem_lits(a0, d, c, j + 1); } _ => {} } }
    reveal(implied);
    assert forall|m: Val| #[trigger] holds(m, a0, cs) implies split(m, a, s) || rest_true(m, cs, r, 0) by {
        if vtrue(m, p) { assert(seen(a, p.var() as int)); assert(m(p.var() as int) != a.var@[p.var() as int].assign.unwrap()); } else { lem_resolve(a0, d, p, r, m); } }
}
/// the clause that is false has both its watched literals at the current level
pub proof fn lem_at_top(a0: AssignStack, d: ClauseDB, p: Lit, r: AssignReason)
    requires analyzable(a0, d), conflict_ok(a0, d.clause@, p, r), a0.lit_ok(p)
    ensures known(a0, d, r), lev(a0, p) == a0.trail_lim@.len(), fls(a0, p), rest_len(d.clause@, r) > 0, lev(a0, rest_lit(d.clause@, r, 0)) == a0.trail_lim@.len() {
    let cs = d.clause@;
    match r {
        AssignReason::BinaryLink(k) => {
            let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == p || t[0] == p && t[1] == k.neg() };
            lem_neg_props(k); lem_top(a0, d, c, 0); lem_top(a0, d, c, 1);
        }
        AssignReason::Implication(c) => { lem_lits(a0, d, c, 0); lem_top(a0, d, c, 0); lem_top(a0, d, c, 1); }
        _ => {}
    }
}
proof fn lem_top(a0: AssignStack, d: ClauseDB, c: ClauseId, k: int) requires analyzable(a0, d), live(d.clause@, c), 0 <= k < 2, forall|j: int| 0 <= j < d.lits(c).len() ==> fls(a0, #[trigger] d.lits(c)[j]) ensures lev(a0, d.lits(c)[k]) == a0.trail_lim@.len() {
    reveal(complete_below); lem_lits(a0, d, c, k); let x = d.lits(c)[k]; let s = d.lits(c);
    lem_level_max(a0, x.var() as int);
    if lev(a0, x) < a0.trail_lim@.len() { assert(fls(a0, d.clause@[c.ord() as int].lits@[k])); assert(covered(a0, s, x)); let y = choose|y: Lit| #[trigger] s.contains(y) && tru(a0, y) && lev(a0, y) <= lev(a0, x); let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(fls(a0, s[j])); }
}
pub proof fn lem_level_max(a: AssignStack, v: int) requires a.wf(), 1 <= v <= a.nv(), a.value(v).is_some() ensures a.var@[v].level <= a.trail_lim@.len(), a.var@[v].level > 0 ==> a.on_trail(v) {
    if a.on_trail(v) { let i = choose|i: int| 0 <= i < a.trail@.len() && #[trigger] a.trail@[i].var() == v; assert(a.lev_at(i)); } else { assert(a.var@[v].assign.is_some()); }
}
/// a two-literal reason is a literal of the same level
pub proof fn lem_same_level(a0: AssignStack, d: ClauseDB, p: Lit, k: Lit)
    requires analyzable(a0, d), a0.lit_ok(p), a0.lit_ok(k), tru(a0, p), tru(a0, k), lev(a0, p) == a0.trail_lim@.len(), paired(d.clause@, k.neg(), p)
    ensures lev(a0, k) == a0.trail_lim@.len() {
    let cs = d.clause@; reveal(complete_below);
    let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == k.neg() && t[1] == p || t[0] == p && t[1] == k.neg() };
    lem_neg_props(k); lem_level_max(a0, k.var() as int);
    let t = cs[c.ord() as int].lits@; let i = if t[0] == k.neg() { 0int } else { 1int };
    assert(cs[c.ord() as int].lits@[i] == k.neg());
    if lev(a0, k) < a0.trail_lim@.len() { assert(covered(a0, t, k.neg())); let y = choose|y: Lit| #[trigger] t.contains(y) && tru(a0, y) && lev(a0, y) <= lev(a0, k.neg()); assert(y == p || y == k.neg()); }
}
/// when the decision of the level is reached nothing else is open
pub proof fn lem_not_decision(a0: AssignStack, a: AssignStack, cs: Seq<Clause>, q: Set<int>, n: int, i: int)
    requires a0.wf(), all_explained(a0, cs), 0 <= i < a0.trail@.len(), lev(a0, a0.trail@[i]) == a0.trail_lim@.len(), a0.trail_lim@.len() > 0, open_vars(a0, a, q, n, i), n > 0
    ensures !(a0.var@[a0.trail@[i].var() as int].reason is Decision) {
    reveal(all_explained); assert(explained(a0, cs, i));
    let v = q.choose(); assert(q.contains(v)); lem_level_max(a0, v);
    let j = choose|j: int| 0 <= j < a0.trail@.len() && #[trigger] a0.trail@[j].var() == v; assert(a0.lev_at(j));
    if j >= i { assert(after(a0, i, v)); }
}
pub proof fn lem_after_cut(a: AssignStack, i: int, v: int) requires 0 <= i < a.trail@.len(), !after(a, i + 1, v), a.trail@[i].var() != v ensures !after(a, i, v) {
    if after(a, i, v) { let j = choose|j: int| i <= j < a.trail@.len() && (#[trigger] a.trail@[j]).var() == v; assert(j > i); }
}
// ---- minimization
/// every other literal of the reason of v is marked or fixed at level 0
pub open spec fn expanded(a: AssignStack, cs: Seq<Clause>, v: int) -> bool { let r = a.var@[v].reason; (r is BinaryLink || r is Implication) && forall|j: int| 0 <= j < rest_len(cs, r) ==> { let x = #[trigger] rest_lit(cs, r, j); a.var@[x.var() as int].level == 0 || seen(a, x.var() as int) } }
pub open spec fn expanded_upto(a: AssignStack, cs: Seq<Clause>, v: int, n: int) -> bool { let r = a.var@[v].reason; (r is BinaryLink || r is Implication) && forall|j: int| 0 <= j < n ==> { let x = #[trigger] rest_lit(cs, r, j); a.var@[x.var() as int].level == 0 || seen(a, x.var() as int) } }
pub open spec fn in_part(s: Seq<Lit>, n: int, v: int) -> bool { contains_var(s.skip(n), v) }
/// more is marked in a2 than in a: just the variables of s from number n on
pub open spec fn more(a0: AssignStack, a: AssignStack, a2: AssignStack, s: Seq<Lit>, n: int) -> bool {
    &&& 0 <= n <= s.len()
    &&& forall|i: int| n <= i < s.len() ==> a0.lit_ok(#[trigger] s[i]) && !seen(a, s[i].var() as int) && seen(a2, s[i].var() as int) && lev(a0, s[i]) > 0 && a0.value(s[i].var() as int).is_some() && !(a0.var@[s[i].var() as int].reason is Decision) && !(a0.var@[s[i].var() as int].reason is None)
    &&& forall|i: int, j: int| n <= i < j < s.len() ==> (#[trigger] s[i]).var() != (#[trigger] s[j]).var()
    &&& forall|v: int| 0 <= v <= a0.nv() ==> #[trigger] seen(a2, v) == (seen(a, v) || in_part(s, n, v))
}
/// how many distinct variables there can be
pub proof fn lem_few_vars(s: Seq<Lit>, n: int, nv: int) requires 0 <= n <= s.len(), 0 <= nv, forall|i: int| n <= i < s.len() ==> 1 <= (#[trigger] s[i]).var() <= nv, forall|i: int, j: int| n <= i < j < s.len() ==> (#[trigger] s[i]).var() != (#[trigger] s[j]).var() ensures s.len() - n <= nv {
    let t = s.skip(n).map(|i: int, l: Lit| l.var() as int);
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(s[i + n].var() != s[j + n].var()); } else { assert(s[j + n].var() != s[i + n].var()); } } }
    vstd::set_lib::lemma_int_range(1, nv + 1); t.unique_seq_to_set();
    assert(t.to_set().subset_of(vstd::set_lib::set_int_range(1, nv + 1))) by { assert forall|x: int| t.to_set().contains(x) implies vstd::set_lib::set_int_range(1, nv + 1).contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(1 <= s[i + n].var() <= nv); } }
    vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(1, nv + 1));
}
/// the marked variables are those of s (from its second literal on), or their reasons consist of marked ones
pub open spec fn closed(a0: AssignStack, a: AssignStack, cs: Seq<Clause>, s: Seq<Lit>) -> bool { forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(a, v) ==> contains_var(s.skip(1), v) || expanded(a, cs, v) }
/// a valuation that makes no literal of s true agrees with all marked variables
pub proof fn lem_agrees(a0: AssignStack, a: AssignStack, d: ClauseDB, s: Seq<Lit>, m: Val, v: int, i: int)
    requires analyzable(a0, d), marked(a, a0), holds(m, a0, d.clause@), closed(a0, a, d.clause@, s), !satisfies(m, s), forall|k: int| 0 <= k < s.len() ==> a0.lit_ok(#[trigger] s[k]) && fls(a0, s[k]), s.len() > 0,
        0 <= i < a0.trail@.len(), a0.trail@[i].var() == v, seen(a, v) && a0.var@[v].level > 0
    ensures m(v) == a0.value(v).unwrap()
    decreases i {
    let cs = d.clause@; let l = a0.trail@[i]; assert(a0.lit_ok(l));
    if contains_var(s.skip(1), v) { let k = choose|k: int| 0 <= k < s.skip(1).len() && (#[trigger] s.skip(1)[k]).var() == v; assert(!vtrue(m, s[k + 1])); assert(fls(a0, s[k + 1])); }
    else {
        let r = a0.var@[v].reason; assert(expanded(a, cs, v));
        reveal(all_explained); assert(explained(a0, cs, i));
        if !vtrue(m, l) {
            lem_resolve(a0, d, l, r, m);
            let j = choose|j: int| 0 <= j < rest_len(cs, r) && vtrue(m, #[trigger] rest_lit(cs, r, j));
            let x = rest_lit(cs, r, j); let w = x.var() as int;
            match r { AssignReason::BinaryLink(k) => { lem_neg_props(k); } AssignReason::Implication(c) => { lem_lits(a0, d, c, j + 1); } _ => {} }
            assert(fls(a0, x) && !after(a0, i, w));
            if a0.var@[w].level > 0 {
                lem_level_max(a0, w);
                let k = choose|k: int| 0 <= k < a0.trail@.len() && #[trigger] a0.trail@[k].var() == w;
                if k >= i { assert(after(a0, i, w)); }
                lem_agrees(a0, a, d, s, m, w, k);
            } else { assert(a0.var@[w].assign.is_some()); }
            assert(false);
        }
    }
}
/// so the literals dropped were redundant
pub proof fn lem_minimized(a0: AssignStack, a: AssignStack, d: ClauseDB, s: Seq<Lit>, t: Seq<Lit>, m: Val)
    requires analyzable(a0, d), marked(a, a0), holds(m, a0, d.clause@), closed(a0, a, d.clause@, t), satisfies(m, s), s.len() > 0, t.len() > 0, t[0] == s[0], forall|k: int| 0 <= k < s.len() ==> a0.lit_ok(#[trigger] s[k]) && fls(a0, s[k]), forall|k: int| 0 <= k < t.len() ==> a0.lit_ok(#[trigger] t[k]) && fls(a0, t[k]),
        forall|k: int| 1 <= k < s.len() ==> seen(a, (#[trigger] s[k]).var() as int)
    ensures satisfies(m, t) {
    let j = choose|j: int| 0 <= j < s.len() && vtrue(m, #[trigger] s[j]);
    if j == 0 { assert(vtrue(m, t[0])); }
    else if !satisfies(m, t) {
        let v = s[j].var() as int;
        if a0.var@[v].level > 0 { lem_level_max(a0, v); let i = choose|i: int| 0 <= i < a0.trail@.len() && #[trigger] a0.trail@[i].var() == v; lem_agrees(a0, a, d, t, m, v, i); } else { assert(a0.var@[v].assign.is_some()); }
        assert(false);
    }
}
"""

SPEC2 = r"""
pub open spec fn flipped(a: AssignStack, a2: AssignStack, v: int, b: bool) -> bool { seen(a2, v) == b && forall|w: int| 0 <= w < a.var@.len() && w != v ==> #[trigger] seen(a2, w) == seen(a, w) }
pub proof fn lem_open_new(a0: AssignStack, a: AssignStack, a2: AssignStack, q: Set<int>, n: int, i: int, v: int)
    requires open_vars(a0, a, q, n, i), marked(a, a0), !seen(a, v), flipped(a, a2, v, true), 1 <= v <= a0.nv(), a0.var@[v].level == a0.trail_lim@.len(), a0.value(v).is_some(), !after(a0, i, v)
    ensures open_vars(a0, a2, q.insert(v), n + 1, i) {
    assert(!q.contains(v));
    assert forall|w: int| #[trigger] q.insert(v).contains(w) <==> 1 <= w <= a0.nv() && seen(a2, w) && a0.var@[w].level == a0.trail_lim@.len() by { if 1 <= w <= a0.nv() && w != v { assert(seen(a2, w) == seen(a, w)); } assert(q.insert(v).contains(w) == (q.contains(w) || w == v)); }
}
pub proof fn lem_open_same(a0: AssignStack, a: AssignStack, a2: AssignStack, q: Set<int>, n: int, i: int, v: int)
    requires open_vars(a0, a, q, n, i), marked(a, a0), flipped(a, a2, v, true), 1 <= v <= a0.nv(), a0.var@[v].level != a0.trail_lim@.len()
    ensures open_vars(a0, a2, q, n, i) {
    assert forall|w: int| #[trigger] q.contains(w) <==> 1 <= w <= a0.nv() && seen(a2, w) && a0.var@[w].level == a0.trail_lim@.len() by { if 1 <= w <= a0.nv() && w != v { assert(seen(a2, w) == seen(a, w)); } }
}
pub proof fn lem_open_pop(a0: AssignStack, a: AssignStack, a2: AssignStack, q: Set<int>, n: int, i: int)
    requires open_vars(a0, a, q, n, i + 1), marked(a, a0), 0 <= i < a0.trail@.len(), a0.wf(), flipped(a, a2, a0.trail@[i].var() as int, false), seen(a, a0.trail@[i].var() as int), lev(a0, a0.trail@[i]) == a0.trail_lim@.len()
    ensures open_vars(a0, a2, q.remove(a0.trail@[i].var() as int), n - 1, i), n > 0, n == 1 ==> forall|v: int| #[trigger] q.contains(v) ==> v == a0.trail@[i].var() {
    let v = a0.trail@[i].var() as int; assert(a0.lit_ok(a0.trail@[i])); assert(q.contains(v));
    let q2 = q.remove(v);
    assert forall|w: int| #[trigger] q2.contains(w) <==> 1 <= w <= a0.nv() && seen(a2, w) && a0.var@[w].level == a0.trail_lim@.len() by { if 1 <= w <= a0.nv() && w != v { assert(seen(a2, w) == seen(a, w)); } assert(q2.contains(w) == (q.contains(w) && w != v)); }
    assert forall|w: int| #[trigger] q2.contains(w) implies a0.value(w).is_some() && !after(a0, i, w) by { assert(q.contains(w)); lem_after_cut(a0, i, w); }
    if n == 1 { assert(q2.len() == 0); assert forall|w: int| #[trigger] q.contains(w) implies w == v by { if w != v { assert(q2.contains(w)); assert(q2 =~= Set::<int>::empty()); } } }
}
/// the entries of the trail that are not marked, or not of the current level, are passed over
pub proof fn lem_skip(a0: AssignStack, a: AssignStack, q: Set<int>, n: int, i: int)
    requires open_vars(a0, a, q, n, i + 1), marked(a, a0), 0 <= i < a0.trail@.len(), a0.wf(), a0.trail_lim@.len() > 0, n > 0, !(seen(a, a0.trail@[i].var() as int) && lev(a0, a0.trail@[i]) == a0.trail_lim@.len())
    ensures i > 0, open_vars(a0, a, q, n, i) {
    assert(a0.lit_ok(a0.trail@[i]));
    assert forall|w: int| #[trigger] q.contains(w) implies a0.value(w).is_some() && !after(a0, i, w) by { lem_after_cut(a0, i, w); }
    lem_open_some(a0, a, q, n, i);
}
pub proof fn lem_open_some(a0: AssignStack, a: AssignStack, q: Set<int>, n: int, i: int) requires open_vars(a0, a, q, n, i), n > 0, a0.wf(), a0.trail_lim@.len() > 0 ensures i > 0 {
    let v = q.choose(); assert(q.contains(v)); lem_level_max(a0, v);
    let j = choose|j: int| 0 <= j < a0.trail@.len() && #[trigger] a0.trail@[j].var() == v;
    if i <= 0 { assert(after(a0, i, v)); }
}
pub proof fn lem_collect_new(a0: AssignStack, a: AssignStack, a2: AssignStack, s: Seq<Lit>, x: Lit)
    requires collected(a0, a, s), marked(a, a0), marked(a2, a0), flipped(a, a2, x.var() as int, true), a0.lit_ok(x), fls(a0, x), 0 < lev(a0, x) < a0.trail_lim@.len(), !seen(a, x.var() as int)
    ensures collected(a0, a2, s.push(x)) {
    let t = s.push(x);
    assert forall|i: int| 1 <= i < t.len() implies a0.lit_ok(#[trigger] t[i]) && fls(a0, t[i]) && 0 < lev(a0, t[i]) < a0.trail_lim@.len() && seen(a2, t[i].var() as int) by { if i < s.len() { assert(t[i] == s[i]); assert(seen(a, s[i].var() as int)); } }
    assert forall|i: int, j: int| 1 <= i < j < t.len() implies (#[trigger] t[i]).var() != (#[trigger] t[j]).var() by { assert(t[i] == s[i]); if j < s.len() { assert(t[j] == s[j]); } else { assert(seen(a, s[i].var() as int)); } }
    assert forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(a2, v) && a0.var@[v].level != a0.trail_lim@.len() implies contains_var(t.skip(1), v) by {
        if v == x.var() { assert(t.skip(1)[s.len() - 1] == x); } else { assert(seen(a, v)); let i = choose|i: int| 0 <= i < s.skip(1).len() && (#[trigger] s.skip(1)[i]).var() == v; assert(t.skip(1)[i] == s.skip(1)[i]); } }
}
pub proof fn lem_collect_same(a0: AssignStack, a: AssignStack, a2: AssignStack, s: Seq<Lit>, v: int, b: bool)
    requires collected(a0, a, s), marked(a, a0), marked(a2, a0), flipped(a, a2, v, b), 1 <= v <= a0.nv(), a0.var@[v].level == a0.trail_lim@.len()
    ensures collected(a0, a2, s) {
    assert forall|i: int| 1 <= i < s.len() implies a0.lit_ok(#[trigger] s[i]) && fls(a0, s[i]) && 0 < lev(a0, s[i]) < a0.trail_lim@.len() && seen(a2, s[i].var() as int) by { assert(seen(a, s[i].var() as int)); assert(s[i].var() != v); }
    assert forall|w: int| 0 <= w <= a0.nv() && #[trigger] seen(a2, w) && a0.var@[w].level != a0.trail_lim@.len() implies contains_var(s.skip(1), w) by { assert(seen(a, w)); }
}
/// the last marked variable of the level: the learnt clause follows
pub proof fn lem_done(a0: AssignStack, cs: Seq<Clause>, a: AssignStack, q: Set<int>, n: int, s: Seq<Lit>, r: AssignReason, p: Lit)
    requires implied(a0, cs, a, s, r, rest_len(cs, r)), marked(a, a0), a0.lit_ok(p), tru(a0, p), open_vars(a0, a, q, 1, n), forall|v: int| #[trigger] q.contains(v) ==> v == p.var(), s.len() > 0
    ensures forall|m: Val| #[trigger] holds(m, a0, cs) ==> satisfies(m, s.update(0, p.neg())) {
    reveal(implied); let t = s.update(0, p.neg()); lem_neg_props(p);
    assert forall|m: Val| #[trigger] holds(m, a0, cs) implies satisfies(m, t) by {
        assert(!rest_true(m, cs, r, rest_len(cs, r)));
        if exists|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i]) { let i = choose|i: int| 1 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(vtrue(m, t[i])); }
        else { let v = choose|v: int| 1 <= v <= a.nv() && #[trigger] seen(a, v) && a.var@[v].level == a.trail_lim@.len() && m(v) != a.var@[v].assign.unwrap(); assert(q.contains(v)); assert(vtrue(m, t[0])); }
    }
}
pub proof fn lem_marked(a0: AssignStack, a: AssignStack, d: ClauseDB) requires analyzable(a0, d), marked(a, a0) ensures analyzable(a, d) {
    let cs = d.clause@;
    assert forall|v: int| 0 <= v < a.var@.len() implies #[trigger] a.same_var(&a0, v) by { }
    assert forall|i: int| 0 <= i < a.trail_saved@.len() implies a.lit_ok(#[trigger] a.trail_saved@[i]) && a.var@[a.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(a0.lit_ok(a0.trail_saved@[i])); }
    a0.lem_same(&a);
    assert(a.queue_ok()) by { assert forall|w: int| #[trigger] a.open_var(w) implies a.kept(w) by { assert(a0.open_var(w)); assert(a0.kept(w)); 
            if !a0.var_order.has(w) { let i = choose|i: int| 0 <= i < a0.trail_saved@.len() && #[trigger] a0.trail_saved@[i].var() == w; assert(a.trail_saved@[i].var() == w); } } }
    assert(d.readable(a)) by { assert forall|j: int| 0 <= j < cs.len() implies a.reads((#[trigger] cs[j]).lits@) by { assert(a0.reads(cs[j].lits@)); assert forall|i: int| 0 <= i < cs[j].lits@.len() implies a.lit_ok(#[trigger] cs[j].lits@[i]) by { assert(a0.lit_ok(cs[j].lits@[i])); } } }
    assert(all_explained(a, cs)) by { reveal(all_explained);
        assert forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 implies #[trigger] explained(a, cs, i) by { assert(a0.lit_ok(a0.trail@[i])); assert(explained(a0, cs, i)); 
            match a0.var@[a0.trail@[i].var() as int].reason { AssignReason::Implication(c) => { let s = cs[c.ord() as int].lits@; assert forall|j: int| 1 <= j < s.len() implies fls(a, #[trigger] s[j]) && !after(a, i, s[j].var() as int) by { lem_lits(a0, d, c, j); assert(fls(a0, s[j])); } } _ => {} } } }
    assert(complete_below(a, cs)) by { reveal(complete_below);
        assert forall|c: ClauseId, p: int| #![trigger cs[c.ord() as int].lits@[p]] live(cs, c) && 0 <= p < 2 && fls(a, cs[c.ord() as int].lits@[p]) && lev(a, cs[c.ord() as int].lits@[p]) < a.trail_lim@.len() implies covered(a, cs[c.ord() as int].lits@, cs[c.ord() as int].lits@[p]) by {
            let s = cs[c.ord() as int].lits@; let l = s[p]; lem_lits(a0, d, c, p); assert(covered(a0, s, l)); let x = choose|x: Lit| #[trigger] s.contains(x) && tru(a0, x) && lev(a0, x) <= lev(a0, l); lem_has(a0, d, c, x); } }
}
pub proof fn lem_touched(a: AssignStack, d: ClauseDB, d2: ClauseDB) requires analyzable(a, d), touched(d2, d), d2.wf() || d2.lbd_temp == d.lbd_temp ensures analyzable(a, d2) {
    let cs = d.clause@; let cs2 = d2.clause@;
    lem_same_clauses(cs, cs2, d.watch_cache@, d.binary_link, d.freelist@);
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).lits@ == cs2[j].lits@ by { assert(cs2[j].lits@ == cs[j].lits@); }
    assert(d2.readable(a)) by { assert forall|j: int| 0 <= j < cs2.len() implies a.reads((#[trigger] cs2[j]).lits@) by { assert(a.reads(cs[j].lits@)); } }
    assert forall|x: Lit, y: Lit| #[trigger] paired(cs, x, y) implies paired(cs2, x, y) by { let c = choose|c: ClauseId| #[trigger] is_bi(cs, c) && { let t = cs[c.ord() as int].lits@; t[0] == x && t[1] == y || t[0] == y && t[1] == x }; assert(is_bi(cs2, c)); }
    assert(all_explained(a, cs2)) by { reveal(all_explained); assert forall|i: int| 0 <= i < a.trail@.len() && lev(a, a.trail@[i]) > 0 implies #[trigger] explained(a, cs2, i) by { assert(explained(a, cs, i)); match a.var@[a.trail@[i].var() as int].reason { AssignReason::Implication(e) => { assert(cs[e.ord() as int].lits@ == cs2[e.ord() as int].lits@); } _ => {} } } }
    assert(complete_below(a, cs2)) by { reveal(complete_below);
        assert forall|c: ClauseId, p: int| #![trigger cs2[c.ord() as int].lits@[p]] live(cs2, c) && 0 <= p < 2 && fls(a, cs2[c.ord() as int].lits@[p]) && lev(a, cs2[c.ord() as int].lits@[p]) < a.trail_lim@.len() implies covered(a, cs2[c.ord() as int].lits@, cs2[c.ord() as int].lits@[p]) by {
            assert(live(cs, c)); assert(cs[c.ord() as int].lits@ == cs2[c.ord() as int].lits@); assert(fls(a, cs[c.ord() as int].lits@[p])); } }
}
pub proof fn lem_touched_holds(m: Val, a: AssignStack, cs: Seq<Clause>, cs2: Seq<Clause>) requires same_clauses(cs, cs2) ensures holds(m, a, cs) == holds(m, a, cs2) {
    assert forall|j: int| 0 <= j < cs.len() implies (#[trigger] cs[j]).lits@ == cs2[j].lits@ && cs[j].dead() == cs2[j].dead() by { assert(cs2[j].lits@ == cs[j].lits@); }
    if sat_all(m, cs) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { assert(!cs[j].dead()); } }
    if sat_all(m, cs2) { assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { assert(!cs2[j].dead()); } }
}
/// what conflict analysis returns: s is false, its first literal alone of the current level, its second of the highest level (r) among the others
pub open spec fn asserting(a: AssignStack, s: Seq<Lit>, r: int) -> bool {
    &&& s.len() > 0 && clause_ok(s) && lev(a, s[0]) == a.trail_lim@.len()
    &&& forall|i: int| 0 <= i < s.len() ==> a.lit_ok(#[trigger] s[i]) && fls(a, s[i])
    &&& forall|i: int| 1 <= i < s.len() ==> 0 < lev(a, #[trigger] s[i]) <= r
    &&& r < a.trail_lim@.len() && (if s.len() == 1 { r == 0 } else { lev(a, s[1]) == r })
}
#[verifier::external_body] pub fn verif_any_lit() -> (r: Lit) { unimplemented!() }
#[verifier::external_body] pub fn verif_vec_copy(v: &Vec<Lit>) -> (r: Vec<Lit>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn verif_vec_one(x: Lit) -> (r: Vec<Lit>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body] pub fn verif_falses(n: usize) -> (r: Vec<bool>) ensures r@.len() == n { unimplemented!() }
"""

SPEC3 = r"""
pub proof fn lem_reason(a0: AssignStack, d: ClauseDB, v: int) requires analyzable(a0, d), 1 <= v <= a0.nv(), a0.value(v).is_some(), a0.var@[v].level > 0
    ensures a0.var@[v].level <= a0.trail_lim@.len(), !(a0.var@[v].reason is None), a0.var@[v].reason is Decision || known(a0, d, a0.var@[v].reason) && forall|j: int| 0 <= j < rest_len(d.clause@, a0.var@[v].reason) ==> a0.lit_ok(#[trigger] rest_lit(d.clause@, a0.var@[v].reason, j)) && fls(a0, rest_lit(d.clause@, a0.var@[v].reason, j)) {
    let cs = d.clause@; let r = a0.var@[v].reason; lem_level_max(a0, v);
    let i = choose|i: int| 0 <= i < a0.trail@.len() && #[trigger] a0.trail@[i].var() == v; 
    assert(explained(a0, cs, i)) by { reveal(all_explained); }
    match r { AssignReason::BinaryLink(k) => { lem_neg_props(k); } AssignReason::Implication(c) => { assert forall|j: int| 0 <= j < rest_len(cs, r) implies a0.lit_ok(#[trigger] rest_lit(cs, r, j)) && fls(a0, rest_lit(cs, r, j)) by { lem_lits(a0, d, c, j + 1); } } _ => {} }
}
pub open spec fn to_do(cl: Seq<Lit>, n: int, w: int, v: int) -> bool { v == w || in_part(cl, n, v) }
pub open spec fn worklist(a0: AssignStack, st: Seq<Lit>) -> bool { forall|i: int| 0 <= i < st.len() ==> ({ let v = (#[trigger] st[i]).var() as int; a0.lit_ok(st[i]) && a0.value(v).is_some() && a0.var@[v].level > 0 && !(a0.var@[v].reason is Decision) && !(a0.var@[v].reason is None) }) }
/// the search for a redundancy proof of w: everything marked so far has been expanded, is to be expanded (st), or is being expanded (cur, up to literal n)
#[verifier::opaque]
pub open spec fn search(a0: AssignStack, d: ClauseDB, a: AssignStack, st: Seq<Lit>, c0: Seq<Lit>, cl: Seq<Lit>, w: int, cur: int, n: int) -> bool {
    &&& c0.len() <= cl.len() && cl.take(c0.len() as int) == c0 && more(a0, a0, a, cl, c0.len() as int) && worklist(a0, st)
    &&& cur >= 0 ==> expanded_upto(a, d.clause@, cur, n)
    &&& forall|v: int| #[trigger] to_do(cl, c0.len() as int, w, v) ==> v == cur || expanded(a, d.clause@, v) || contains_var(st, v)
}
pub proof fn lem_part_next(s: Seq<Lit>, k: int, v: int) requires 0 <= k < s.len() ensures in_part(s, k, v) == (s[k].var() == v || in_part(s, k + 1, v)) {
    if in_part(s, k, v) { let i = choose|i: int| 0 <= i < s.skip(k).len() && (#[trigger] s.skip(k)[i]).var() == v; if i > 0 { assert(s.skip(k + 1)[i - 1] == s[k + i]); } }
    if in_part(s, k + 1, v) { let i = choose|i: int| 0 <= i < s.skip(k + 1).len() && (#[trigger] s.skip(k + 1)[i]).var() == v; assert(s.skip(k)[i + 1] == s[k + 1 + i]); }
    if s[k].var() == v { assert(s.skip(k)[0] == s[k]); }
}
/// each variable once: the one at k is not among those after it
pub proof fn lem_part_later(s: Seq<Lit>, k: int) requires 0 <= k < s.len(), forall|i: int| k < i < s.len() ==> (#[trigger] s[i]).var() != s[k].var() ensures !in_part(s, k + 1, s[k].var() as int) {
    if in_part(s, k + 1, s[k].var() as int) { let i = choose|i: int| 0 <= i < s.skip(k + 1).len() && (#[trigger] s.skip(k + 1)[i]).var() == s[k].var(); assert(s[k + 1 + i].var() == s[k].var()); }
}
pub proof fn lem_part_push(s: Seq<Lit>, x: Lit, k: int, v: int) requires 0 <= k <= s.len() ensures in_part(s.push(x), k, v) == (in_part(s, k, v) || x.var() == v) {
    let t = s.push(x);
    if in_part(t, k, v) { let i = choose|i: int| 0 <= i < t.skip(k).len() && (#[trigger] t.skip(k)[i]).var() == v; if k + i < s.len() { assert(s.skip(k)[i] == t[k + i]); } }
    if in_part(s, k, v) { let i = choose|i: int| 0 <= i < s.skip(k).len() && (#[trigger] s.skip(k)[i]).var() == v; assert(t.skip(k)[i] == s[k + i]); }
    if x.var() == v { assert(t.skip(k)[s.len() - k] == x); }
}
pub proof fn lem_search_start(a0: AssignStack, d: ClauseDB, x: Lit, c0: Seq<Lit>) requires worklist(a0, seq![x]) ensures search(a0, d, a0, seq![x], c0, c0, x.var() as int, -1, 0) {
    reveal(search); assert(c0.take(c0.len() as int) =~= c0); assert(c0.skip(c0.len() as int) =~= Seq::<Lit>::empty()); assert(seq![x][0] == x); assert(contains_var(seq![x], x.var() as int)); }
pub proof fn lem_search_pop(a0: AssignStack, d: ClauseDB, a: AssignStack, st: Seq<Lit>, c0: Seq<Lit>, cl: Seq<Lit>, w: int)
    requires search(a0, d, a, st, c0, cl, w, -1, 0), st.len() > 0, marked(a, a0), 0 <= w ensures search(a0, d, a, st.drop_last(), c0, cl, w, st.last().var() as int, 0), worklist(a0, seq![st.last()]) {
    reveal(search); let l = st.last(); let s2 = st.drop_last(); let v = l.var() as int; assert(st[st.len() - 1] == l); assert(a.var@[v].reason == a0.var@[v].reason);
    assert(worklist(a0, s2)) by { assert forall|i: int| 0 <= i < s2.len() implies ({ let v = (#[trigger] s2[i]).var() as int; a0.lit_ok(s2[i]) && a0.value(v).is_some() && a0.var@[v].level > 0 && !(a0.var@[v].reason is Decision) && !(a0.var@[v].reason is None) }) by { assert(s2[i] == st[i]); } }
    assert forall|u: int| #[trigger] to_do(cl, c0.len() as int, w, u) implies u == v || expanded(a, d.clause@, u) || contains_var(s2, u) by {
        if in_part(cl, c0.len() as int, u) { let k = choose|k: int| 0 <= k < cl.skip(c0.len() as int).len() && (#[trigger] cl.skip(c0.len() as int)[k]).var() == u; }
        if contains_var(st, u) { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).var() == u; if i < s2.len() { assert(s2[i] == st[i]); } } }
}
pub proof fn lem_search_done(a0: AssignStack, d: ClauseDB, a: AssignStack, st: Seq<Lit>, c0: Seq<Lit>, cl: Seq<Lit>, w: int, cur: int, n: int)
    requires search(a0, d, a, st, c0, cl, w, cur, n), cur >= 0, n == rest_len(d.clause@, a.var@[cur].reason) ensures search(a0, d, a, st, c0, cl, w, -1, 0) {
    reveal(search); assert(expanded(a, d.clause@, cur)); }
pub proof fn lem_search_seen(a0: AssignStack, d: ClauseDB, a: AssignStack, st: Seq<Lit>, c0: Seq<Lit>, cl: Seq<Lit>, w: int, cur: int, n: int)
    requires search(a0, d, a, st, c0, cl, w, cur, n), cur >= 0, ({ let x = rest_lit(d.clause@, a.var@[cur].reason, n); a.var@[x.var() as int].level == 0 || seen(a, x.var() as int) }) ensures search(a0, d, a, st, c0, cl, w, cur, n + 1) {
    reveal(search); }
pub proof fn lem_search_mark(a0: AssignStack, d: ClauseDB, a: AssignStack, a2: AssignStack, st: Seq<Lit>, c0: Seq<Lit>, cl: Seq<Lit>, w: int, cur: int, n: int, x: Lit)
    requires search(a0, d, a, st, c0, cl, w, cur, n), 0 <= cur, marked(a, a0), marked(a2, a0), !seen(a, x.var() as int), flipped(a, a2, x.var() as int, true), worklist(a0, seq![x]), x.var() == rest_lit(d.clause@, a.var@[cur].reason, n).var(), a0.var@.len() == a0.nv() + 1,
        analyzable(a0, d), 1 <= cur <= a0.nv(), 1 <= w <= a0.nv(), a0.value(cur).is_some(), a0.var@[cur].level > 0, a0.value(w).is_some(), a0.var@[w].level > 0, 0 <= n < rest_len(d.clause@, a.var@[cur].reason),
    ensures search(a0, d, a2, st.push(x), c0, cl.push(x), w, cur, n + 1) {
    reveal(search); assert(seq![x][0] == x);
    let n0 = c0.len() as int; let v0 = x.var() as int; let cl2 = cl.push(x); let st2 = st.push(x);
    assert(cl2.take(n0) =~= cl.take(n0));
    assert(!seen(a0, v0) && !in_part(cl, n0, v0));
    assert forall|v: int| 0 <= v <= a0.nv() implies #[trigger] seen(a2, v) == (seen(a0, v) || in_part(cl2, n0, v)) by { lem_part_push(cl, x, n0, v); assert(seen(a, v) == (seen(a0, v) || in_part(cl, n0, v))); }
    assert forall|i: int, j: int| n0 <= i < j < cl2.len() implies (#[trigger] cl2[i]).var() != (#[trigger] cl2[j]).var() by { assert(cl2[i] == cl[i]); if j < cl.len() { assert(cl2[j] == cl[j]); } else { assert(cl.skip(n0)[i - n0] == cl[i]); } }
    assert forall|i: int| n0 <= i < cl2.len() implies a0.lit_ok(#[trigger] cl2[i]) && !seen(a0, cl2[i].var() as int) && seen(a2, cl2[i].var() as int) && lev(a0, cl2[i]) > 0 && a0.value(cl2[i].var() as int).is_some() && !(a0.var@[cl2[i].var() as int].reason is Decision) && !(a0.var@[cl2[i].var() as int].reason is None) by { if i < cl.len() { assert(cl2[i] == cl[i]); } }
    assert(more(a0, a0, a2, cl2, n0));
    assert forall|u: int| 0 <= u <= a0.nv() && #[trigger] seen(a, u) implies seen(a2, u) by { }
    lem_expanded(a0, d, a, a2, cur, n);
    assert(!seen(a, v0)); let r = a.var@[cur].reason; assert(rest_lit(d.clause@, r, n).var() == x.var());
    assert(worklist(a0, st2)) by { assert forall|i: int| 0 <= i < st2.len() implies ({ let v = (#[trigger] st2[i]).var() as int; a0.lit_ok(st2[i]) && a0.value(v).is_some() && a0.var@[v].level > 0 && !(a0.var@[v].reason is Decision) && !(a0.var@[v].reason is None) }) by { if i < st.len() { assert(st2[i] == st[i]); } } }
    assert forall|u: int| #[trigger] to_do(cl2, n0, w, u) implies u == cur || expanded(a2, d.clause@, u) || contains_var(st2, u) by {
        lem_part_push(cl, x, n0, u); assert(u == v0 || to_do(cl, n0, w, u));
        if u == v0 { assert(st2[st.len() as int] == x); }
        else if u == cur { }
        else if contains_var(st, u) { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).var() == u; assert(st2[i] == st[i]); }
        else { if u != w { let k = choose|k: int| 0 <= k < cl.skip(n0).len() && (#[trigger] cl.skip(n0)[k]).var() == u; assert(a0.lit_ok(cl[n0 + k])); }
            let ru = a.var@[u].reason; assert(expanded(a, d.clause@, u)); lem_reason(a0, d, u); lem_expanded(a0, d, a, a2, u, rest_len(d.clause@, ru)); } }
}
/// marking one more variable keeps what has been expanded
pub proof fn lem_expanded(a0: AssignStack, d: ClauseDB, a: AssignStack, a2: AssignStack, v: int, n: int) requires analyzable(a0, d), marked(a, a0), marked(a2, a0), 1 <= v <= a0.nv(), 0 <= n <= rest_len(d.clause@, a.var@[v].reason), expanded_upto(a, d.clause@, v, n), a0.value(v).is_some(), a0.var@[v].level > 0, forall|w: int| 0 <= w <= a0.nv() && #[trigger] seen(a, w) ==> seen(a2, w) ensures expanded_upto(a2, d.clause@, v, n) {
    lem_reason(a0, d, v); let r = a.var@[v].reason; let cs = d.clause@;
    assert forall|j: int| 0 <= j < n implies { let x = #[trigger] rest_lit(cs, r, j); a2.var@[x.var() as int].level == 0 || seen(a2, x.var() as int) } by { let x = rest_lit(cs, r, j); assert(a0.lit_ok(x)); assert(a.var@[x.var() as int].level == 0 || seen(a, x.var() as int)); }
}
pub proof fn lem_search_few(a0: AssignStack, d: ClauseDB, a: AssignStack, st: Seq<Lit>, c0: Seq<Lit>, cl: Seq<Lit>, w: int, cur: int, n: int) requires search(a0, d, a, st, c0, cl, w, cur, n), a0.wf() ensures c0.len() <= cl.len() <= c0.len() + a0.nv() { reveal(search); lem_few_vars(cl, c0.len() as int, a0.nv()); }
/// nothing is left to be expanded
pub proof fn lem_search_end(a0: AssignStack, d: ClauseDB, a: AssignStack, c0: Seq<Lit>, cl: Seq<Lit>, w: int, st: Seq<Lit>) requires search(a0, d, a, st, c0, cl, w, -1, 0), st.len() == 0, 0 <= w
    ensures c0.len() <= cl.len(), cl.take(c0.len() as int) == c0, more(a0, a0, a, cl, c0.len() as int), expanded(a, d.clause@, w), forall|i: int| c0.len() <= i < cl.len() ==> expanded(a, d.clause@, (#[trigger] cl[i]).var() as int) {
    reveal(search);
    assert forall|i: int| c0.len() <= i < cl.len() implies expanded(a, d.clause@, (#[trigger] cl[i]).var() as int) by { let n0 = c0.len() as int; assert(cl.skip(n0)[i - n0] == cl[i]); assert(to_do(cl, n0, w, cl[i].var() as int)); }
    assert(to_do(cl, c0.len() as int, w, w));
}
pub proof fn lem_more_trans(a0: AssignStack, a1: AssignStack, a2: AssignStack, c1: Seq<Lit>, c2: Seq<Lit>, n: int)
    requires marked(a1, a0), more(a0, a0, a1, c1, n), more(a1, a1, a2, c2, c1.len() as int), c2.take(c1.len() as int) == c1 ensures more(a0, a0, a2, c2, n) {
    let n1 = c1.len() as int;
    assert forall|i: int| n <= i < n1 implies c2[i] == #[trigger] c1[i] by { assert(c2.take(n1)[i] == c2[i]); }
    assert forall|v: int| 0 <= v <= a0.nv() implies #[trigger] seen(a2, v) == (seen(a0, v) || in_part(c2, n, v)) by {
        assert(seen(a2, v) == (seen(a1, v) || in_part(c2, n1, v))); assert(seen(a1, v) == (seen(a0, v) || in_part(c1, n, v)));
        if in_part(c2, n, v) { let k = choose|k: int| 0 <= k < c2.skip(n).len() && (#[trigger] c2.skip(n)[k]).var() == v; if n + k < n1 { assert(c1.skip(n)[k] == c1[n + k]); } else { assert(c2.skip(n1)[n + k - n1] == c2[n + k]); } }
        if in_part(c1, n, v) { let k = choose|k: int| 0 <= k < c1.skip(n).len() && (#[trigger] c1.skip(n)[k]).var() == v; assert(c2.skip(n)[k] == c1[n + k]); }
        if in_part(c2, n1, v) { let k = choose|k: int| 0 <= k < c2.skip(n1).len() && (#[trigger] c2.skip(n1)[k]).var() == v; assert(c2.skip(n)[n1 + k - n] == c2[n1 + k]); } }
    assert forall|i: int| n <= i < c2.len() implies a0.lit_ok(#[trigger] c2[i]) && !seen(a0, c2[i].var() as int) && seen(a2, c2[i].var() as int) && lev(a0, c2[i]) > 0 && a0.value(c2[i].var() as int).is_some() && !(a0.var@[c2[i].var() as int].reason is Decision) && !(a0.var@[c2[i].var() as int].reason is None) by {
        let v = c2[i].var() as int;
        if i < n1 { assert(c2[i] == c1[i]); assert(seen(a1, v)); assert(seen(a2, v) == (seen(a1, v) || in_part(c2, n1, v))); } else { assert(a1.lit_ok(c2[i])); assert(a1.var@[v].level == a0.var@[v].level); assert(!seen(a1, v)); assert(seen(a1, v) == (seen(a0, v) || in_part(c1, n, v))); } }
    assert forall|i: int, j: int| n <= i < j < c2.len() implies (#[trigger] c2[i]).var() != (#[trigger] c2[j]).var() by {
        if j < n1 { assert(c2[i] == c1[i] && c2[j] == c1[j]); } else if i < n1 { assert(c2[i] == c1[i]); assert(c1.skip(n)[i - n] == c1[i]); assert(in_part(c1, n, c1[i].var() as int)); assert(seen(a1, c2[i].var() as int)); assert(!seen(a1, c2[j].var() as int)); } }
}
/// what is expanded stays so while more is marked
pub proof fn lem_expanded_all(a0: AssignStack, d: ClauseDB, a: AssignStack, a2: AssignStack, v: int) requires analyzable(a0, d), marked(a, a0), marked(a2, a0), 1 <= v <= a0.nv(), expanded(a, d.clause@, v), a0.value(v).is_some(), a0.var@[v].level > 0, forall|w: int| 0 <= w <= a0.nv() && #[trigger] seen(a, w) ==> seen(a2, w) ensures expanded(a2, d.clause@, v) {
    let r = a.var@[v].reason; lem_reason(a0, d, v); lem_expanded(a0, d, a, a2, v, rest_len(d.clause@, r)); }
/// the first j literals of s have been looked at: t has been kept, the others are redundant
#[verifier::opaque]
pub open spec fn kept(a0: AssignStack, d: ClauseDB, a: AssignStack, s: Seq<Lit>, t: Seq<Lit>, cl: Seq<Lit>, j: int) -> bool {
    &&& s.len() <= cl.len() && cl.take(s.len() as int) == s && more(a0, a0, a, cl, s.len() as int)
    &&& forall|k: int| 0 <= k < t.len() ==> s.take(j).contains(#[trigger] t[k])
    &&& forall|k: int, l: int| 0 <= k < l < t.len() ==> (#[trigger] t[k]).var() != (#[trigger] t[l]).var()
    &&& j > 0 ==> t.len() > 0 && t[0] == s[0]
    &&& forall|i: int| 1 <= i < j ==> contains_var(t.skip(1), (#[trigger] s[i]).var() as int) || expanded(a, d.clause@, s[i].var() as int)
    &&& forall|i: int| s.len() <= i < cl.len() ==> expanded(a, d.clause@, (#[trigger] cl[i]).var() as int)
}
/// what minimization starts from
pub open spec fn learnt_ok(a0: AssignStack, s: Seq<Lit>) -> bool { collected(a0, a0, s) && a0.lit_ok(s[0]) && fls(a0, s[0]) && lev(a0, s[0]) == a0.trail_lim@.len() && forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(a0, v) ==> a0.var@[v].level != a0.trail_lim@.len() }
pub proof fn lem_learnt(a0: AssignStack, s: Seq<Lit>) requires learnt_ok(a0, s) ensures clause_ok(s), forall|i: int| 0 <= i < s.len() ==> a0.lit_ok(#[trigger] s[i]) && fls(a0, s[i]), forall|i: int| 1 <= i < s.len() ==> 0 < lev(a0, #[trigger] s[i]) < a0.trail_lim@.len() && s[i] != s[0] {
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).var() != (#[trigger] s[j]).var() by { } }
pub proof fn lem_kept_start(a0: AssignStack, d: ClauseDB, s: Seq<Lit>) ensures kept(a0, d, a0, s, Seq::empty(), s, 0) { reveal(kept); assert(s.take(s.len() as int) =~= s); assert(s.skip(s.len() as int) =~= Seq::<Lit>::empty()); }
pub proof fn lem_kept_next(a0: AssignStack, d: ClauseDB, a: AssignStack, a2: AssignStack, s: Seq<Lit>, t: Seq<Lit>, cl: Seq<Lit>, cl2: Seq<Lit>, j: int, keep: bool)
    requires analyzable(a0, d), learnt_ok(a0, s), kept(a0, d, a, s, t, cl, j), 0 <= j < s.len(), j == 0 ==> keep, marked(a, a0), marked(a2, a0),
        keep ==> cl2 == cl && forall|v: int| 0 <= v <= a0.nv() ==> #[trigger] seen(a2, v) == seen(a, v),
        !keep ==> cl.len() <= cl2.len() && cl2.take(cl.len() as int) == cl && more(a, a, a2, cl2, cl.len() as int) && expanded(a2, d.clause@, s[j].var() as int) && forall|i: int| cl.len() <= i < cl2.len() ==> expanded(a2, d.clause@, (#[trigger] cl2[i]).var() as int)
    ensures kept(a0, d, a2, s, if keep { t.push(s[j]) } else { t }, cl2, j + 1) {
    reveal(kept); lem_learnt(a0, s);
    let t2 = if keep { t.push(s[j]) } else { t }; let n = s.len() as int;
    if keep { assert(more(a0, a0, a2, cl, n)) by { assert forall|v: int| 0 <= v <= a0.nv() implies #[trigger] seen(a2, v) == (seen(a0, v) || in_part(cl, n, v)) by { assert(seen(a, v) == (seen(a0, v) || in_part(cl, n, v))); } assert forall|i: int| n <= i < cl.len() implies seen(a2, (#[trigger] cl[i]).var() as int) by { assert(a0.lit_ok(cl[i])); assert(seen(a, cl[i].var() as int)); } } }
    else { lem_more_trans(a0, a, a2, cl, cl2, n); assert(cl2.take(n) =~= s) by { assert forall|i: int| 0 <= i < n implies cl2[i] == s[i] by { assert(cl.take(n)[i] == s[i]); assert(cl2.take(cl.len() as int)[i] == cl[i]); } } }
    assert forall|w: int| 0 <= w <= a0.nv() && #[trigger] seen(a, w) implies seen(a2, w) by { if !keep { assert(seen(a2, w) == (seen(a, w) || in_part(cl2, cl.len() as int, w))); } }
    assert forall|k: int| 0 <= k < t2.len() implies s.take(j + 1).contains(#[trigger] t2[k]) by { if k < t.len() { assert(t2[k] == t[k]); let i = choose|i: int| 0 <= i < s.take(j).len() && s.take(j)[i] == t[k]; assert(s.take(j + 1)[i] == t2[k]); } else { assert(s.take(j + 1)[j] == t2[k]); } }
    assert forall|k: int, l: int| 0 <= k < l < t2.len() implies (#[trigger] t2[k]).var() != (#[trigger] t2[l]).var() by { assert(t2[k] == t[k]); if l < t.len() { assert(t2[l] == t[l]); } else { let i = choose|i: int| 0 <= i < s.take(j).len() && s.take(j)[i] == t[k]; assert(s[i] == t[k]); assert(s[i].var() != s[j].var()); } }
    assert forall|i: int| 1 <= i < j + 1 implies contains_var(t2.skip(1), (#[trigger] s[i]).var() as int) || expanded(a2, d.clause@, s[i].var() as int) by {
        if i < j { if contains_var(t.skip(1), s[i].var() as int) { let k = choose|k: int| 0 <= k < t.skip(1).len() && (#[trigger] t.skip(1)[k]).var() == s[i].var(); assert(t2.skip(1)[k] == t[k + 1]); } else { lem_expanded_all(a0, d, a, a2, s[i].var() as int); } }
        else if keep { assert(t2.skip(1)[t.len() - 1] == s[j]); } }
    assert forall|i: int| n <= i < cl2.len() implies expanded(a2, d.clause@, (#[trigger] cl2[i]).var() as int) by { if i < cl.len() { if !keep { assert(cl2.take(cl.len() as int)[i] == cl2[i]); } assert(cl2[i] == cl[i]); assert(a0.lit_ok(cl[i])); lem_expanded_all(a0, d, a, a2, cl[i].var() as int); } }
}
pub proof fn lem_kept_end(a0: AssignStack, d: ClauseDB, a: AssignStack, s: Seq<Lit>, t: Seq<Lit>, cl: Seq<Lit>)
    requires analyzable(a0, d), learnt_ok(a0, s), kept(a0, d, a, s, t, cl, s.len() as int), marked(a, a0)
    ensures clause_ok(t), t.len() > 0, t[0] == s[0], forall|l: Lit| #[trigger] t.contains(l) ==> s.contains(l), forall|m: Val| holds(m, a0, d.clause@) && #[trigger] satisfies(m, s) ==> satisfies(m, t),
        forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(a, v) ==> contains_var(cl, v), forall|i: int| 0 <= i < cl.len() ==> a0.lit_ok(#[trigger] cl[i]) {
    reveal(kept); lem_learnt(a0, s); let n = s.len() as int;
    assert forall|k: int| 0 <= k < t.len() implies s.contains(#[trigger] t[k]) && a0.lit_ok(t[k]) && fls(a0, t[k]) by { let i = choose|i: int| 0 <= i < s.take(n).len() && s.take(n)[i] == t[k]; assert(s[i] == t[k]); }
    assert forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(a, v) implies contains_var(cl, v) && (contains_var(t.skip(1), v) || expanded(a, d.clause@, v)) by {
        assert(seen(a, v) == (seen(a0, v) || in_part(cl, n, v)));
        if in_part(cl, n, v) { let k = choose|k: int| 0 <= k < cl.skip(n).len() && (#[trigger] cl.skip(n)[k]).var() == v; assert(cl[n + k].var() == v); }
        else { let k = choose|k: int| 0 <= k < s.skip(1).len() && (#[trigger] s.skip(1)[k]).var() == v; assert(s[k + 1].var() == v); assert(cl.take(n)[k + 1] == cl[k + 1]); } }
    assert(closed(a0, a, d.clause@, t));
    assert forall|k: int| 1 <= k < s.len() implies seen(a, (#[trigger] s[k]).var() as int) by { let v = s[k].var() as int; assert(seen(a0, v)); assert(seen(a, v) == (seen(a0, v) || in_part(cl, n, v))); }
    assert forall|m: Val| holds(m, a0, d.clause@) && #[trigger] satisfies(m, s) implies satisfies(m, t) by { lem_minimized(a0, a, d, s, t, m); }
    assert forall|i: int| 0 <= i < cl.len() implies a0.lit_ok(#[trigger] cl[i]) by { if i < n { assert(cl.take(n)[i] == cl[i]); assert(a0.lit_ok(s[i])); } }
}
pub proof fn lem_sat_bi(m: Val, cs: Seq<Clause>) requires sat_all(m, cs) ensures sat_bi(m, cs) { }
pub proof fn lem_sub(a0: AssignStack, s: Seq<Lit>, t: Seq<Lit>) requires learnt_ok(a0, s), t.len() > 0, t[0] == s[0], clause_ok(t), forall|l: Lit| #[trigger] t.contains(l) ==> s.contains(l)
    ensures a0.reads(t), forall|i: int| 0 <= i < t.len() ==> a0.lit_ok(#[trigger] t[i]) && fls(a0, t[i]), forall|i: int| 1 <= i < t.len() ==> 0 < lev(a0, #[trigger] t[i]) < a0.trail_lim@.len() {
    lem_learnt(a0, s);
    assert forall|i: int| 0 <= i < t.len() implies a0.lit_ok(#[trigger] t[i]) && fls(a0, t[i]) && (i > 0 ==> 0 < lev(a0, t[i]) < a0.trail_lim@.len()) by { assert(t.contains(t[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(a0.lit_ok(s[k])); if i > 0 { assert(t[0].var() != t[i].var()); assert(k > 0); } } }
pub proof fn lem_lit_ord(a: AssignStack, d: ClauseDB, l: Lit) requires a.lit_ok(l), sized(a, d), a.heap_ok() ensures l.ord() < d.nl() { }
pub open spec fn swp(k: int, i: int) -> int { if i == 1 { k } else if i == k { 1 } else { i } }
/// the literal of the highest level has been put second
pub proof fn lem_swapped(a0: AssignStack, t: Seq<Lit>, t3: Seq<Lit>, r: int)
    requires t.len() > 0, clause_ok(t), lev(a0, t[0]) == a0.trail_lim@.len(), a0.trail_lim@.len() > 0, forall|i: int| 0 <= i < t.len() ==> a0.lit_ok(#[trigger] t[i]) && fls(a0, t[i]), forall|i: int| 1 <= i < t.len() ==> 0 < lev(a0, #[trigger] t[i]) < a0.trail_lim@.len(),
        t.len() == 1 ==> t3 == t && r == 0, t.len() > 1 ==> exists|k: int| 1 <= k < t.len() && r == lev(a0, t[k]) && t3 == #[trigger] t.update(1, t[k]).update(k, t[1]), forall|i: int| 1 <= i < t.len() ==> lev(a0, #[trigger] t[i]) <= r
    ensures asserting(a0, t3, r), t3[0] == t[0], forall|m: Val| #[trigger] satisfies(m, t) ==> satisfies(m, t3) {
    if t.len() > 1 {
        let k = choose|k: int| 1 <= k < t.len() && r == lev(a0, t[k]) && t3 == #[trigger] t.update(1, t[k]).update(k, t[1]);
        assert forall|i: int| 0 <= i < t3.len() implies #[trigger] t3[i] == t[swp(k, i)] by { }
        assert forall|i: int| 0 <= i < t3.len() implies a0.lit_ok(#[trigger] t3[i]) && fls(a0, t3[i]) && t3[i].wf() && (i > 0 ==> 0 < lev(a0, t3[i]) <= r) by { let j = swp(k, i); assert(t3[i] == t[j]); assert(a0.lit_ok(t[j])); }
        assert forall|i: int, j: int| 0 <= i < j < t3.len() implies (#[trigger] t3[i]).var() != (#[trigger] t3[j]).var() by { let i2 = swp(k, i); let j2 = swp(k, j); assert(t3[i] == t[i2] && t3[j] == t[j2] && i2 != j2); if i2 < j2 { assert(t[i2].var() != t[j2].var()); } else { assert(t[j2].var() != t[i2].var()); } }
        assert forall|m: Val| #[trigger] satisfies(m, t) implies satisfies(m, t3) by { let j = choose|j: int| 0 <= j < t.len() && vtrue(m, #[trigger] t[j]); let j2 = swp(k, j); assert(t3[j2] == t[j]); }
    }
}
pub proof fn lem_used(d: ClauseDB, d2: ClauseDB) requires d.wf(), same_clauses(d.clause@, d2.clause@), d2 == (ClauseDB { clause: d2.clause, ..d }) ensures d2.wf() { lem_same_clauses(d.clause@, d2.clause@, d.watch_cache@, d.binary_link, d.freelist@); }
"""


def unit():
    u = Unit("learn")
    u_cdb.types(u)
    u.text(u_prop.DEFS)
    u.struct("state", "State", keep=["new_learnt"])
    u.text(SPEC)
    u.text(SPEC2)
    u.text(SPEC3)
    A, D = u_assign.unit(), u_cdb.unit()
    u.uses(A, ["AssignStack::decision_level", "Var::is", "Var::turn_on", "Var::turn_off"])
    u.uses(D, ["Clause::is", "ClauseDB::at", "ClauseDB::at_mut", "ClauseDB::update_at_analysis", "ClauseDB::minimize_with_bi_clauses", "AssignStack::level", "AssignStack::var"])
    f = u.fn
    HS, vm, ai = "assign::stack", "impl VarManipulateIF for AssignStack", "impl AssignIF for AssignStack"
    f(HS, vm, "reason", into="AssignStack", spec="requires vi < self.var@.len(), ensures r == self.var@[vi as int].reason")
    f(HS, vm, "var_mut", into="AssignStack", spec="""requires vi < old(self).var@.len()
    ensures *r == old(self).var@[vi as int], *final(self) == (AssignStack { var: final(self).var, ..*old(self) }), final(self).var@ == old(self).var@.update(vi as int, *final(r))""")
    f(HS, ai, "stack", into="AssignStack", spec="requires i < self.trail@.len(), ensures r == self.trail@[i as int]")
    f(HS, ai, "stack_len", into="AssignStack", spec="ensures r == self.trail@.len()")
    f(HS, ai, "root_level", into="AssignStack", spec="ensures r == self.root_level")
    f("assign::reward", "impl ActivityIF < VarId > for AssignStack", "reward_at_analysis", into="AssignStack", spec="""requires vi < old(self).var@.len()
    ensures *final(self) == (AssignStack { var: final(self).var, ..*old(self) }), final(self).var@ == old(self).var@.update(vi as int, Var { flags: FlagVar { used: true, ..old(self).var@[vi as int].flags }, ..old(self).var@[vi as int] })""",
      subst=[("self . var [ vi ] . turn_on", "self . var_mut ( vi ) . turn_on")])
    S = "solver::conflict"
    CLEAR = {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": """invariant marked(*asg, a0), more(a0, a0, ag, clear@, top as int), it.iter.end == clear@.len(),
                forall|v: int| 0 <= v <= a0.nv() ==> #[trigger] seen(*asg, v) == (seen(a0, v) || in_part(clear@, top + it.index(), v)),""",
             "top": "let ghost ac = *asg;",
             "bottom": """proof { assert forall|v: int| 0 <= v <= a0.nv() implies #[trigger] seen(*asg, v) == (seen(a0, v) || in_part(clear@, top + it.index() + 1, v)) by { lem_part_next(clear@, top + it.index(), v); assert(seen(ac, v) == (seen(a0, v) || in_part(clear@, top + it.index(), v))); lem_part_later(clear@, top + it.index()); } }""",
             "after": "proof { assert forall|v: int| 0 <= v <= a0.nv() implies #[trigger] seen(*asg, v) == seen(a0, v) by { assert(clear@.skip(clear@.len() as int) =~= Seq::<Lit>::empty()); } }"}
    f(S, "impl Lit", "is_redundant", into="Lit", nloops=4, subst=CDBSIG + [
        ("let mut stack = $$e ;", "let mut stack = verif_vec_one ( self ) ;", 1), ("levels : & [ bool ]", "levels : & Vec < bool >"),
        ("while let Some ( sl ) = stack . pop ( ) {", "loop { let verif_p = stack . pop ( ) ; if verif_p . is_none ( ) { break ; } let sl = verif_p . unwrap ( ) ;", 1),
        ("for l in & clear [ top .. ] {", "for verif_k in top .. clear . len ( ) { let l = & clear [ verif_k ] ;"),
        ("for q in & ( * c ) [ 1 .. ] {", "for verif_k in 1 .. c . lits . len ( ) { let q = & c . lits [ verif_k ] ;", 1)] + AT,
      spec="""requires analyzable(*old(asg), *cdb), old(asg).lit_ok(self), lev(*old(asg), self) > 0, old(asg).value(self.var() as int).is_some(), levels@.len() > old(asg).trail_lim@.len()
    ensures marked(*final(asg), *old(asg)),
        !r ==> final(clear)@ == old(clear)@ && forall|v: int| 0 <= v <= old(asg).nv() ==> #[trigger] seen(*final(asg), v) == seen(*old(asg), v),
        r ==> old(clear)@.len() <= final(clear)@.len() && final(clear)@.take(old(clear)@.len() as int) == old(clear)@ && more(*old(asg), *old(asg), *final(asg), final(clear)@, old(clear)@.len() as int)
            && expanded(*final(asg), cdb.clause@, self.var() as int) && forall|i: int| old(clear)@.len() <= i < final(clear)@.len() ==> expanded(*final(asg), cdb.clause@, (#[trigger] final(clear)@[i]).var() as int)""",
      pre="let ghost a0 = *asg; let ghost cs = cdb.clause@; let ghost c0 = clear@; proof { lem_reason(a0, *cdb, self.var() as int); assert(marked(a0, a0)); if !(a0.var@[self.var() as int].reason is Decision) { assert(seq![self][0] == self); lem_search_start(a0, *cdb, self, c0); } }",
      loops={0: {"attr": "#[verifier::loop_isolation(false)]", "inv": """invariant marked(*asg, a0), search(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, -1, 0),
            decreases 2 * (a0.nv() + top - clear@.len()) + stack@.len(),""", "top": "let ghost st0 = stack@; let ghost cl0 = clear@; let ghost as0 = *asg; proof { lem_search_few(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, -1, 0); }",
            "after": "proof { lem_search_end(a0, *cdb, *asg, c0, clear@, self.var() as int, stack@); }",
            "bottom": """proof { match r0 { AssignReason::BinaryLink(l) => {
                if clear@.len() == cl0.len() { lem_search_seen(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, 0); } else { assert(seq![l][0] == l); lem_search_mark(a0, *cdb, as0, *asg, st1, c0, cl0, self.var() as int, sl.var() as int, 0, l); lem_search_few(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, 1); }
                lem_search_done(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, 1); } _ => {} } lem_search_few(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, -1, 0); }"""},
        1: CLEAR, 3: CLEAR, 2: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "after": "proof { lem_search_done(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, c.lits@.len() - 1); }", "inv": "invariant marked(*asg, a0), search(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, it.index() as int), 2 * (a0.nv() + top - clear@.len()) + stack@.len() < 2 * (a0.nv() + top - cl0.len()) + st0.len(), c == cdb.clause@[cid.ord() as int], it.iter.end == c.lits@.len(),",
            "top": "let ghost am = *asg; let ghost stm = stack@; let ghost clm = clear@; let ghost x = c.lits@[verif_k as int]; proof { assert(x == rest_lit(cs, r0, verif_k - 1)); assert(a0.lit_ok(x)); assert(a0.value(x.var() as int).is_some()); if a0.var@[x.var() as int].level > 0 { lem_reason(a0, *cdb, x.var() as int); } }",
            "bottom": "proof { if clear@.len() == clm.len() { lem_search_seen(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, verif_k - 1); } else { assert(seq![x][0] == x); lem_search_mark(a0, *cdb, am, *asg, stm, c0, clm, self.var() as int, sl.var() as int, verif_k - 1, x); lem_search_few(a0, *cdb, *asg, stack@, c0, clear@, self.var() as int, sl.var() as int, verif_k as int); } }"}},
      ghost=[("before", "for verif_k in top", "let ghost ag = *asg; proof { reveal(search); }", i) for i in (0, 1)]
        + [("before", "match asg . reason ( sl . vi ( ) )", "proof { lem_search_pop(a0, *cdb, *asg, st0, c0, clear@, self.var() as int); assert(stack@ =~= st0.drop_last()); assert(seq![sl][0] == sl); lem_reason(a0, *cdb, sl.var() as int); }  let ghost st1 = stack@; let ghost r0 = a0.var@[sl.var() as int].reason;"),
           ("before", "let lv = asg . level ( vi )", "proof { lem_neg_props(l); assert(rest_lit(cs, r0, 0) == l.neg()); assert(a0.lit_ok(l.neg())); if a0.var@[l.var() as int].level > 0 { lem_reason(a0, *cdb, l.var() as int); } }", 0)])
    f(S, None, "minimize_learnt", nloops=4, subst=CDBSIG + [
        ("let mut to_clear : Vec < Lit > = $$e ;", "let mut to_clear : Vec < Lit > = verif_vec_copy ( new_learnt ) ;", 1), (":: alloc :: vec :: from_elem ( false , $$n )", "verif_falses ( $$n )", 1), ("let _lbd = $$e ;", "", 1),
        ("for l in & new_learnt [ 1 .. ] {", "for verif_k in 1 .. new_learnt . len ( ) { let l = & new_learnt [ verif_k ] ;", 1), ("for l in & to_clear {", "for verif_k in 0 .. to_clear . len ( ) { let l = & to_clear [ verif_k ] ;", 1),
        ("new_learnt . retain ( | l | $$e ) ;", "let mut verif_t : Vec < Lit > = Vec :: new ( ) ; for verif_k in 0 .. new_learnt . len ( ) { let l = & new_learnt [ verif_k ] ; let verif_b = $$e ; if verif_b { verif_t . push ( * l ) ; } } * new_learnt = verif_t ;", 1)] + AT,
      spec="""requires analyzable(*old(asg), *old(cdb)), learnt_ok(*old(asg), old(new_learnt)@), room(*old(cdb), 1)
    ensures marked(*final(asg), *old(asg)), unseen(*final(asg)), touched(*final(cdb), *old(cdb)), final(cdb).wf(), final(cdb).stamped(), final(cdb).lbd_temp@[0] <= old(cdb).lbd_temp@[0] + 1, asserting(*old(asg), final(new_learnt)@, r as int), final(new_learnt)@[0] == old(new_learnt)@[0],
        forall|m: Val| holds(m, *old(asg), old(cdb).clause@) && #[trigger] satisfies(m, old(new_learnt)@) ==> satisfies(m, final(new_learnt)@)""",
      pre="let ghost a0 = *asg; let ghost d0 = *cdb; let ghost s = new_learnt@; proof { lem_learnt(a0, s); a0.lem_levels(); assert forall|i: int| 0 <= i < s.len() implies lev(a0, #[trigger] s[i]) <= a0.trail_lim@.len() by { lem_level_max(a0, s[i].var() as int); } }",
      loops={0: {"it": "it", "inv": "invariant new_learnt@ == s, *asg == a0, a0.lit_ok(s[0]), it.iter.end == s.len(), forall|i: int| 0 <= i < s.len() ==> a0.lit_ok(#[trigger] s[i]), forall|i: int| 0 <= i < s.len() ==> lev(a0, #[trigger] s[i]) <= a0.trail_lim@.len(), levels@.len() == a0.trail_lim@.len() + 1,"},
        1: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": "invariant new_learnt@ == s, marked(*asg, a0), kept(a0, *cdb, *asg, s, verif_t@, to_clear@, it.index() as int),",
            "top": "let ghost ar = *asg; let ghost cl0 = to_clear@; let ghost tr = verif_t@; proof { lem_marked(a0, ar, *cdb); assert(a0.lit_ok(s[verif_k as int])); if verif_k > 0 { assert(s[verif_k as int] != s[0]); } }",
            "bottom": "proof { lem_kept_next(a0, *cdb, ar, *asg, s, tr, cl0, to_clear@, verif_k as int, verif_b); }"},
        3: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": "invariant marked(*asg, a0), forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(*asg, v) ==> in_part(to_clear@, it.index() as int, v),",
            "top": "let ghost ar = *asg; proof { assert(a0.lit_ok(to_clear@[verif_k as int])); }", 
            "bottom": "proof { assert forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(*asg, v) implies in_part(to_clear@, it.index() + 1, v) by { if v != to_clear@[verif_k as int].var() { assert(seen(ar, v)); } lem_part_next(to_clear@, verif_k as int, v); } }",
            "after": "proof { assert(to_clear@.skip(to_clear@.len() as int) =~= Seq::<Lit>::empty()); }"},
        2: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": "invariant new_learnt@ == t2, 1 <= max_i < t2.len(), level_to_return == lev(a0, t2[max_i as int]), forall|i: int| 1 <= i < 2 + it.index() && i < t2.len() ==> lev(a0, #[trigger] t2[i]) <= level_to_return,", "top": "proof { assert(a0.lit_ok(t2[i as int])); }"},
      },
      ghost=[("before", "let mut verif_t", "proof { lem_kept_start(a0, *cdb, s); }"),
        ("before", "if 2 < new_learnt . len ( )", "let ghost t = new_learnt@; proof { lem_kept_end(a0, *cdb, *asg, s, t, to_clear@); lem_marked(a0, *asg, *cdb); lem_sub(a0, s, t); assert(a0.lit_ok(t[0])); lem_lit_ord(a0, *cdb, t[0]); }"),
        ("before", "let mut level_to_return", "let ghost t2 = new_learnt@; proof { assert forall|m: Val| holds(m, a0, d0.clause@) && #[trigger] satisfies(m, s) implies satisfies(m, t2) by { lem_sat_bi(m, d0.clause@); assert(satisfies(m, t)); } assert(t2[0] == s[0]); lem_sub(a0, s, t2); }"),
        ("before", "for verif_k in 0 .. to_clear", "proof { let t3 = new_learnt@; lem_swapped(a0, t2, t3, level_to_return as int); assert(to_clear@.skip(0) =~= to_clear@); }"),
      ])
    MAIN = """marked(*asg, a0), touched(*cdb, d0), cdb.wf(), cdb.lbd_temp == d0.lbd_temp, path_cnt >= 1, trail_index < a0.trail@.len(), open_vars(a0, *asg, qs, path_cnt as int, trail_index + 1), collected(a0, *asg, learnt@),
              cid_with_max_lbd matches Some(c) ==> live(cs, c),"""
    f(S, None, "conflict_analyze", nloops=3, subst=CDBSIG + [
        ("macro_rules ! $n $b", ""), ("Lit :: from ( u32 :: MAX )", "verif_any_lit ( )"), ("let & ( mut p , mut reason ) = cc ;", "let mut p = cc . 0 ; let mut reason = cc . 1 ;", 1),
        ("for q in cdb [ cid ] . iter ( ) . skip ( 1 ) {", "for verif_k in 1 .. cdb . at ( cid ) . lits . len ( ) { let q = & cdb . at ( cid ) . lits [ verif_k ] ;", 1),
        ("cdb [ cid ] . $f = $$e ;", "let verif_v = $$e ; cdb . at_mut ( cid ) . $f = verif_v ;")] + AT,
      spec="""requires analyzable(*old(asg), *old(cdb)), unseen(*old(asg)), conflict_ok(*old(asg), old(cdb).clause@, cc.0, cc.1), old(asg).lit_ok(cc.0), room(*old(cdb), 2)
    ensures marked(*final(asg), *old(asg)), unseen(*final(asg)), touched(*final(cdb), *old(cdb)), final(cdb).wf(), final(cdb).stamped(), final(cdb).lbd_temp@[0] <= old(cdb).lbd_temp@[0] + 2, asserting(*old(asg), final(state).new_learnt@, r as int),
        forall|m: Val| #[trigger] holds(m, *old(asg), old(cdb).clause@) ==> satisfies(m, final(state).new_learnt@)""",
      pre="let ghost a0 = *asg; let ghost d0 = *cdb; let ghost cs = cdb.clause@; let ghost mut qs = Set::<int>::empty(); proof { lem_at_top(a0, d0, cc.0, cc.1); assert(marked(a0, a0)); }",
      loops={0: {"attr": "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]", "inv": "invariant_except_break " + MAIN + """ implied(a0, cs, *asg, learnt@, reason, 0), known(a0, d0, reason), rest_false(a0, cs, reason, trail_index + 1), reason is BinaryLink ==> lev(a0, rest_lit(cs, reason, 0)) == a0.trail_lim@.len(),
            ensures marked(*asg, a0), touched(*cdb, d0), cdb.wf(), cdb.lbd_temp == d0.lbd_temp, collected(a0, *asg, learnt@), cid_with_max_lbd matches Some(c) ==> live(cs, c), a0.lit_ok(p), tru(a0, p), lev(a0, p) == a0.trail_lim@.len(), forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(*asg, v) ==> a0.var@[v].level != a0.trail_lim@.len(),
              forall|m: Val| #[trigger] holds(m, a0, cs) ==> satisfies(m, learnt@.update(0, p.neg())),
            decreases trail_index,""", "top": "let ghost as0 = *asg; let ghost l0 = learnt@; let ghost ti = trail_index; let ghost r0 = reason; let ghost dm = *cdb; proof { lem_open_bound(a0, *asg, qs, path_cnt as int, trail_index + 1); }"},
        1: {"attr": "#[verifier::loop_isolation(false)]", "inv": "invariant " + MAIN + "  reason == r0, 1 <= verif_i0 <= verif_s0, verif_s0 == cs[cid.ord() as int].lits@.len(), implied(a0, cs, *asg, learnt@, reason, verif_i0 - 1), decreases verif_s0 - verif_i0,",
            "top": "let ghost am = *asg; let ghost lm = learnt@; let ghost x = rest_lit(cs, r0, verif_i0 - 1); proof { assert(rest_at(a0, cs, r0, trail_index + 1, verif_i0 - 1)); lem_open_bound(a0, *asg, qs, path_cnt as int, trail_index + 1); }",
            "bottom": """proof { let v = x.var() as int; if !seen(am, v) { if lev(a0, x) == a0.trail_lim@.len() { lem_open_new(a0, am, *asg, qs, path_cnt - 1, trail_index + 1, v); qs = qs.insert(v); lem_collect_same(a0, am, *asg, lm, v, true); } else { lem_level_max(a0, v); lem_open_same(a0, am, *asg, qs, path_cnt as int, trail_index + 1, v); lem_collect_new(a0, am, *asg, lm, x); } }
                lem_looked(a0, cs, am, *asg, lm, learnt@, r0, verif_k - 1); }"""},
        2: {"attr": "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]", "inv": "invariant trail_index < a0.trail@.len(), trail_index <= ti, open_vars(a0, *asg, qs, path_cnt as int, trail_index + 1), ensures ({ let v = a0.trail@[trail_index as int].var() as int; seen(*asg, v) && a0.var@[v].level == a0.trail_lim@.len() }), decreases trail_index,",
            "top": "proof { assert(a0.lit_ok(a0.trail@[trail_index as int])); }"}},
      ghost=[("before", "let mut trail_index", "proof { let v = p.var() as int; assert forall|w: int| #[trigger] qs.insert(v).contains(w) implies w == v by { } qs = qs.insert(v); lem_begin(a0, d0, *asg, learnt@, p, reason); lem_level_max(a0, v); assert(qs.len() == 1); assert(learnt@.skip(1) =~= Seq::<Lit>::empty()); assert(unseen(a0)); assert forall|w: int| 0 <= w <= a0.nv() implies #[trigger] seen(*asg, w) == (w == v) by { assert(!seen(a0, w)); } assert(collected(a0, *asg, learnt@)); let n = a0.trail@.len() as int; assert(a0.trail@.len() > 0); assert(!after(a0, n, v)); assert(open_vars(a0, *asg, qs, 1, n)); assert(marked(*asg, a0)); assert(touched(*cdb, d0)); }"),
        ("before", "while verif_i0 < verif_s0", "proof { lem_used(dm, *cdb); lem_lits(a0, d0, cid, 0); }"),
        ("before", "continue ;", "proof { lem_looked(a0, cs, am, *asg, lm, learnt@, r0, verif_k - 1); }"),
        ("before", "loop { let vi", """proof { match r0 { AssignReason::BinaryLink(l) => { let x = rest_lit(cs, r0, 0); let v = x.var() as int; lem_neg_props(l); assert(rest_at(a0, cs, r0, trail_index + 1, 0));
                if !seen(as0, v) { lem_open_new(a0, as0, *asg, qs, path_cnt - 1, trail_index + 1, v); qs = qs.insert(v); lem_collect_same(a0, as0, *asg, l0, v, true); }
                lem_looked(a0, cs, as0, *asg, l0, learnt@, r0, 0); } _ => {} } assert(implied(a0, cs, *asg, learnt@, r0, rest_len(cs, r0))); }"""),
        ("before", "trail_index -= 1 ;", "proof { lem_skip(a0, *asg, qs, path_cnt as int, trail_index as int); }", 0),
        ("before", "p = asg . stack ( trail_index ) ;", "let ghost ap = *asg;"),
        ("before", "if path_cnt == 0", """let ghost q1 = qs; proof { let v = p.var() as int; lem_open_pop(a0, ap, *asg, qs, path_cnt + 1, trail_index as int); lem_collect_same(a0, ap, *asg, learnt@, v, false); qs = qs.remove(v);
             if path_cnt == 0 { lem_done(a0, cs, ap, q1, trail_index + 1, learnt@, r0, p); assert forall|v: int| 0 <= v <= a0.nv() && #[trigger] seen(*asg, v) implies a0.var@[v].level != a0.trail_lim@.len() by { if v >= 1 { assert(!qs.contains(v)); } } }
             else { lem_open_some(a0, *asg, qs, path_cnt as int, trail_index as int); lem_not_decision(a0, *asg, cs, qs, path_cnt as int, trail_index as int); lem_popped(a0, d0, ap, *asg, learnt@, r0, trail_index as int, a0.var@[v].reason); } }"""),
        ("before", "cdb . update_at_analysis", "proof { lem_marked(a0, *asg, d0); lem_touched(*asg, d0, *cdb); asg.lem_levels(); assert(live(cdb.clause@, cid)); assert(asg.reads(cdb.clause@[cid.ord() as int].lits@)); }"),
        ("before", "learnt [ 0 ] = ! p", "let ghost l1 = learnt@;"),
        ("after_stmt", "learnt [ 0 ] = ! p", """proof { lem_neg_props(p); lem_touched(a0, d0, *cdb); lem_marked(a0, *asg, *cdb); let s = learnt@; assert(s =~= l1.update(0, p.neg())); assert(s.skip(1) =~= l1.skip(1));
            assert(learnt_ok(*asg, s)); assert(room(*cdb, 1)); 
            assert forall|m: Val| #[trigger] holds(m, a0, cs) implies holds(m, *asg, cdb.clause@) by { lem_touched_holds(m, a0, cs, cdb.clause@); assert forall|v: int| 1 <= v <= asg.nv() && (#[trigger] asg.var@[v]).assign.is_some() && asg.var@[v].level == 0 implies m(v) == asg.var@[v].assign.unwrap() by { assert(a0.var@[v].assign.is_some()); } } }
            let ghost a3 = *asg; let ghost d3 = *cdb; let ghost s3 = learnt@;"""),
      ])
    return u
