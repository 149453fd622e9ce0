"""resolution on a variable, the record of an eliminated variable, subsumption (C07, C08)"""
import clause
import u_assign
import u_model
from clause import AT, CDBSIG
from prelude import flags
from unit import Unit

RLIMIT = 60

TEXT = r"""
impl ClauseDB {
    pub open spec fn lits(&self, c: ClauseId) -> Seq<Lit> { self.clause@[c.ord() as int].lits@ }
    pub open spec fn has(&self, c: ClauseId) -> bool { c.ord() < self.clause@.len() && clause_ok(self.lits(c)) }
}
/// p and q clash on another variable than v
pub open spec fn clash(p: Seq<Lit>, q: Seq<Lit>, v: int) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).var() != v && q.contains(p[i].neg()) }
/// r lists the other literals of p and q, each once
pub open spec fn resolvent(r: Seq<Lit>, p: Seq<Lit>, q: Seq<Lit>, v: int) -> bool {
    &&& clause_ok(r)
    &&& forall|l: Lit| #[trigger] r.contains(l) <==> l.var() != v && (p.contains(l) || q.contains(l))
}
pub proof fn lem_clash(p: Seq<Lit>, q: Seq<Lit>, v: int) requires clause_ok(p), clause_ok(q), clash(p, q, v) ensures clash(q, p, v) {
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).var() != v && q.contains(p[i].neg());
    let j = choose|j: int| 0 <= j < q.len() && q[j] == p[i].neg();
    lem_neg_props(p[i]);
    assert(q[j].neg() == p[i]); assert(p.contains(q[j].neg()));
}
/// v occurs in p with one sign and in q with the other
pub open spec fn opposed(p: Seq<Lit>, q: Seq<Lit>, l: Lit) -> bool { p.contains(l) && q.contains(l.neg()) }
/// C07: the resolvent follows from the two clauses
pub proof fn c07_resolvent_follows(m: Val, r: Seq<Lit>, p: Seq<Lit>, q: Seq<Lit>, l: Lit)
    requires clause_ok(p), clause_ok(q), opposed(p, q, l), resolvent(r, p, q, l.var() as int), satisfies(m, p), satisfies(m, q)
    ensures satisfies(m, r) {
    let j0 = choose|i: int| 0 <= i < p.len() && p[i] == l; lem_neg_props(l);
    let s = if vtrue(m, l) { q } else { p };
    let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]);
    let k = s[i];
    assert(s.contains(k));
    let y = if vtrue(m, l) { l.neg() } else { l };
    assert(s.contains(y));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == y;
    if k.var() == l.var() { assert(!vtrue(m, y)); assert(i != j); if i < j { assert(s[i].var() != s[j].var()); } else { assert(s[j].var() != s[i].var()); } }
    assert(r.contains(k));
    let x = choose|x: int| 0 <= x < r.len() && r[x] == k;
    assert(vtrue(m, r[x]));
}
/// C07: a clash makes the union of the other literals true under every assignment
pub proof fn c07_clash_is_tautology(m: Val, p: Seq<Lit>, q: Seq<Lit>, v: int)
    requires clause_ok(p), clash(p, q, v) ensures exists|l: Lit| l.var() != v && (p.contains(l) || q.contains(l)) && vtrue(m, l) {
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).var() != v && q.contains(p[i].neg());
    lem_neg_props(p[i]);
    assert(p.contains(p[i]));
    if vtrue(m, p[i]) { assert(p[i].var() != v && p.contains(p[i]) && vtrue(m, p[i])); } else { let l = p[i].neg(); assert(l.var() != v && q.contains(l) && vtrue(m, l)); }
}
/// the value of the literals of s other than those of v
pub open spec fn others_false(m: Val, s: Seq<Lit>, v: int) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).var() != v ==> !vtrue(m, s[i]) }
pub open spec fn set_val(m: Val, v: int, b: bool) -> Val { |w: int| if w == v { b } else { m(w) } }
/// every clause of ps contains l; every clause of ns contains its negation
pub open spec fn sides(ps: Seq<Seq<Lit>>, ns: Seq<Seq<Lit>>, l: Lit) -> bool {
    &&& l.wf()
    &&& forall|i: int| 0 <= i < ps.len() ==> clause_ok(#[trigger] ps[i]) && ps[i].contains(l)
    &&& forall|i: int| 0 <= i < ns.len() ==> clause_ok(#[trigger] ns[i]) && ns[i].contains(l.neg())
}
/// m satisfies every resolvent
pub open spec fn resolvents_hold(m: Val, ps: Seq<Seq<Lit>>, ns: Seq<Seq<Lit>>, v: int) -> bool {
    forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ns.len() ==> clash(#[trigger] ps[i], #[trigger] ns[j], v) || exists|l: Lit| l.var() != v && (ps[i].contains(l) || ns[j].contains(l)) && vtrue(m, l)
}
/// C07: an assignment that satisfies all resolvents can be given a value of the variable that satisfies all clauses: false (l is the
/// literal of the recorded side) unless a recorded clause has no other true literal
pub proof fn c07_value_exists(m: Val, ps: Seq<Seq<Lit>>, ns: Seq<Seq<Lit>>, l: Lit)
    requires sides(ps, ns, l), resolvents_hold(m, ps, ns, l.var() as int)
    ensures ({
        let v = l.var() as int;
        let b = if exists|i: int| 0 <= i < ps.len() && #[trigger] others_false(m, ps[i], v) { l.sign() } else { !l.sign() };
        (forall|i: int| 0 <= i < ps.len() ==> satisfies(set_val(m, v, b), #[trigger] ps[i])) && (forall|i: int| 0 <= i < ns.len() ==> satisfies(set_val(m, v, b), #[trigger] ns[i]))
    }) {
    let v = l.var() as int;
    lem_neg_props(l);
    if exists|i: int| 0 <= i < ps.len() && #[trigger] others_false(m, ps[i], v) {
        let k = choose|i: int| 0 <= i < ps.len() && #[trigger] others_false(m, ps[i], v);
        let m2 = set_val(m, v, l.sign());
        assert forall|i: int| 0 <= i < ps.len() implies satisfies(m2, #[trigger] ps[i]) by { let x = choose|x: int| 0 <= x < ps[i].len() && ps[i][x] == l; assert(vtrue(m2, ps[i][x])); }
        assert forall|j: int| 0 <= j < ns.len() implies satisfies(m2, #[trigger] ns[j]) by {
            assert(clause_ok(ps[k]));
            if clash(ps[k], ns[j], v) { let x = choose|x: int| 0 <= x < ps[k].len() && (#[trigger] ps[k][x]).var() != v && ns[j].contains(ps[k][x].neg());
                lem_neg_props(ps[k][x]);
                let y = choose|y: int| 0 <= y < ns[j].len() && ns[j][y] == ps[k][x].neg(); assert(!vtrue(m, ps[k][x])); assert(vtrue(m2, ns[j][y])); }
            else { let t = choose|t: Lit| t.var() != v && (ps[k].contains(t) || ns[j].contains(t)) && vtrue(m, t);
                if ps[k].contains(t) { let x = choose|x: int| 0 <= x < ps[k].len() && ps[k][x] == t; assert(ps[k][x].var() != v); assert(false); }
                let y = choose|y: int| 0 <= y < ns[j].len() && ns[j][y] == t; assert(vtrue(m2, ns[j][y])); } }
    } else {
        let m2 = set_val(m, v, !l.sign());
        assert forall|i: int| 0 <= i < ps.len() implies satisfies(m2, #[trigger] ps[i]) by { assert(!others_false(m, ps[i], v)); let x = choose|x: int| 0 <= x < ps[i].len() && (#[trigger] ps[i][x]).var() != v && vtrue(m, ps[i][x]); assert(vtrue(m2, ps[i][x])); }
        assert forall|j: int| 0 <= j < ns.len() implies satisfies(m2, #[trigger] ns[j]) by { let x = choose|x: int| 0 <= x < ns[j].len() && ns[j][x] == l.neg(); assert(vtrue(m2, ns[j][x])); }
    }
}
// ---- what merge collects
/// the literals of s[..k] with another variable than v that are not in q, in order
pub open spec fn pick(s: Seq<Lit>, k: int, q: Seq<Lit>, v: int) -> Seq<Lit> decreases k {
    if k <= 0 { Seq::empty() } else if s[k - 1].var() != v && !q.contains(s[k - 1]) { pick(s, k - 1, q, v).push(s[k - 1]) } else { pick(s, k - 1, q, v) }
}
pub proof fn lem_push(a: Seq<Lit>, x: Lit, l: Lit) ensures a.push(x).contains(l) <==> l == x || a.contains(l) {
    let r = a.push(x);
    if r.contains(l) { let i = choose|i: int| 0 <= i < r.len() && r[i] == l; if i < a.len() { assert(a[i] == l); } }
    if a.contains(l) { let i = choose|i: int| 0 <= i < a.len() && a[i] == l; assert(r[i] == l); }
    assert(r[a.len() as int] == x);
}
proof fn lem_pick(s: Seq<Lit>, k: int, q: Seq<Lit>, v: int) requires clause_ok(s), 0 <= k <= s.len()
    ensures clause_ok(pick(s, k, q, v)), forall|l: Lit| #[trigger] pick(s, k, q, v).contains(l) <==> l.var() != v && !q.contains(l) && s.take(k).contains(l), pick(s, k, q, v).len() <= k decreases k {
    if k > 0 {
        lem_pick(s, k - 1, q, v);
        let a = pick(s, k - 1, q, v); let r = pick(s, k, q, v);
        assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
        assert forall|l: Lit| s.take(k).contains(l) <==> l == s[k - 1] || s.take(k - 1).contains(l) by {
            lem_push(s.take(k - 1), s[k - 1], l); }
        if r.len() > a.len() {
            assert forall|l: Lit| r.contains(l) <==> l == s[k - 1] || a.contains(l) by {
                lem_push(a, s[k - 1], l); }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).var() != (#[trigger] r[j]).var() by {
                if j < a.len() { assert(a[i].var() != a[j].var()); } else { assert(a.contains(a[i])); let t = s.take(k - 1); let x = choose|x: int| 0 <= x < t.len() && t[x] == a[i]; assert(s[x].var() != s[k - 1].var()); } }
            assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).wf() by { if i < a.len() { assert(a[i].wf()); } }
        }
    } else { assert(s.take(0) =~= Seq::empty()); }
}
pub open spec fn merged(p: Seq<Lit>, q: Seq<Lit>, v: int) -> Seq<Lit> { pick(p, p.len() as int, q, v) + pick(q, q.len() as int, Seq::empty(), v) }
pub proof fn lem_merged(p: Seq<Lit>, q: Seq<Lit>, v: int) requires clause_ok(p), clause_ok(q), !clash(p, q, v)
    ensures resolvent(merged(p, q, v), p, q, v), resolvent(merged(p, q, v), q, p, v) {
    let a = pick(p, p.len() as int, q, v); let b = pick(q, q.len() as int, Seq::empty(), v); let r = merged(p, q, v);
    lem_pick(p, p.len() as int, q, v); lem_pick(q, q.len() as int, Seq::empty(), v);
    assert(p.take(p.len() as int) =~= p); assert(q.take(q.len() as int) =~= q);
    assert forall|l: Lit| #[trigger] r.contains(l) <==> l.var() != v && (p.contains(l) || q.contains(l)) by {
        assert(!Seq::<Lit>::empty().contains(l));
        if r.contains(l) { let i = choose|i: int| 0 <= i < r.len() && r[i] == l; if i < a.len() { assert(a[i] == l); assert(a.contains(l)); } else { assert(b[i - a.len()] == l); assert(b.contains(l)); } }
        if a.contains(l) { let i = choose|i: int| 0 <= i < a.len() && a[i] == l; assert(r[i] == l); }
        if b.contains(l) { let i = choose|i: int| 0 <= i < b.len() && b[i] == l; assert(r[a.len() + i] == l); }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).wf() by { if i < a.len() { assert(a[i].wf()); } else { assert(b[i - a.len()].wf()); } }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).var() != (#[trigger] r[j]).var() by {
        if j < a.len() { assert(a[i].var() != a[j].var()); } else if i >= a.len() { assert(b[i - a.len()].var() != b[j - a.len()].var()); }
        else { let x = a[i]; let y = b[j - a.len()]; assert(a.contains(x)); assert(b.contains(y)); assert(x.wf() && y.wf());
            if x.var() == y.var() { lem_same_var(x, y); assert(q.contains(y)); assert(y == x.neg()); let z = choose|z: int| 0 <= z < p.len() && p[z] == x; assert(p[z].var() != v); assert(clash(p, q, v)); } }
    }
}
/// C07: the announced size is the size of every resolvent
pub proof fn c07_cost_is_size(r: Seq<Lit>, p: Seq<Lit>, q: Seq<Lit>, v: int) requires clause_ok(p), clause_ok(q), !clash(p, q, v), resolvent(r, p, q, v) ensures r.len() == merged(p, q, v).len() {
    lem_merged(p, q, v);
    let m = merged(p, q, v);
    lem_nodup(r); lem_nodup(m);
    r.unique_seq_to_set(); m.unique_seq_to_set();
    assert(r.to_set() =~= m.to_set()) by { assert forall|l: Lit| r.to_set().contains(l) == m.to_set().contains(l) by { assert(r.contains(l) == m.contains(l)); } }
}
pub proof fn lem_nodup(s: Seq<Lit>) requires clause_ok(s) ensures s.no_duplicates() {
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i].var() != s[j].var()); } else { assert(s[j].var() != s[i].var()); } }
}
/// every literal of v in s is k
pub open spec fn only(s: Seq<Lit>, v: int, k: Lit) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).var() == v ==> s[i] == k }
proof fn lem_opposed(p: Seq<Lit>, q: Seq<Lit>, k: Lit) requires clause_ok(p), clause_ok(q), opposed(p, q, k) ensures k.wf(), only(p, k.var() as int, k), only(q, k.var() as int, k.neg()) {
    let x = choose|x: int| 0 <= x < p.len() && p[x] == k; let y = choose|y: int| 0 <= y < q.len() && q[y] == k.neg();
    assert(p[x].wf()); lem_neg_props(k);
    assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]).var() == k.var() implies p[i] == k by { if i < x { assert(p[i].var() != p[x].var()); } if x < i { assert(p[x].var() != p[i].var()); } }
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).var() == k.var() implies q[i] == k.neg() by { if i < y { assert(q[i].var() != q[y].var()); } if y < i { assert(q[y].var() != q[i].var()); } }
}
/// a clause that contains l does not contain its negation
proof fn lem_hit(q: Seq<Lit>, j: int, l: Lit) requires clause_ok(q), 0 <= j < q.len(), q[j] == l ensures q.contains(l), !q.contains(l.neg()) {
    assert(q[j].wf()); lem_neg_props(l);
    if q.contains(l.neg()) { let i = choose|i: int| 0 <= i < q.len() && q[i] == l.neg(); if i < j { assert(q[i].var() != q[j].var()); } if j < i { assert(q[j].var() != q[i].var()); } }
}
pub open spec fn live(a: &AssignStack, s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).var() < a.var@.len() && !a.var@[s[i].var() as int].flags.eliminated }
"""
REC = r"""
// ---- records of eliminated variables, in the layout extend_model reads (u_model)
pub open spec fn fronted(c: Seq<Lit>, i: int) -> Seq<Lit> { c.update(0, c[i]).update(i, c[0]) }
pub open spec fn word(n: int) -> Lit { Lit { ordinal: NonZeroU32 { v: n as u32 } } }
/// the literal of v in front, the other literals, the length
pub open spec fn record_of(r: Seq<Lit>, c: Seq<Lit>, v: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).var() == v && r == fronted(c, i).push(word(c.len() as int)) }
/// s is s0 followed by the records of the first k clauses
pub open spec fn recorded(s0: Seq<Lit>, s: Seq<Lit>, cs: Seq<Seq<Lit>>, k: int, v: int) -> bool decreases k {
    if k <= 0 { s == s0 } else { let m = s.len() - cs[k - 1].len() - 1; m >= 0 && record_of(s.skip(m), cs[k - 1], v) && recorded(s0, s.take(m), cs, k - 1, v) }
}
impl ClauseDB { pub open spec fn seqs(&self, ps: Seq<ClauseId>) -> Seq<Seq<Lit>> { Seq::new(ps.len(), |i: int| self.lits(ps[i])) } }
pub open spec fn defaulted(s: Seq<Lit>, x: Lit) -> Seq<Lit> { s.push(x).push(word(1)) }
pub open spec fn small(cs: Seq<Seq<Lit>>) -> bool { forall|i: int| 0 <= i < cs.len() ==> clause_ok(#[trigger] cs[i]) && 0 < cs[i].len() < 0x4000_0000 }
proof fn lem_take(m: Model, s: Seq<Lit>, t: Seq<Lit>, e: int) requires 0 <= e <= s.len(), e <= t.len(), s.take(e) == t.take(e) ensures extended(m, s, e) == extended(m, t, e) decreases e {
    assert forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < e implies s[i] == t[i] by { assert(s.take(e)[i] == s[i]); assert(t.take(e)[i] == t[i]); }
    if e > 0 && 1 <= rwidth(s, e) <= e - 1 { let w = e - 1 - rwidth(s, e); assert(step(m, s, w, e) == step(m, t, w, e)) by { assert(forced(m, s, w, e) == forced(m, t, w, e)); }
        assert(s.take(w) =~= t.take(w)); lem_take(step(m, s, w, e), s, t, w); }
}
proof fn lem_recs_take(s: Seq<Lit>, t: Seq<Lit>, e: int, n: int) requires 0 <= e <= s.len(), e <= t.len(), s.take(e) == t.take(e), recs(s, e, n) ensures recs(t, e, n) decreases e {
    assert forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < e implies s[i] == t[i] by { assert(s.take(e)[i] == s[i]); assert(t.take(e)[i] == t[i]); }
    if e > 0 { let w = e - 1 - rwidth(s, e); assert(s.take(w) =~= t.take(w)); lem_recs_take(s, t, w, n); }
}
/// the records a run of make_eliminated_clauses leaves are well formed for extend_model
pub proof fn c05_records_wf(s0: Seq<Lit>, s: Seq<Lit>, cs: Seq<Seq<Lit>>, k: int, v: int, n: int)
    requires recs(s0, s0.len() as int, n), recorded(s0, s, cs, k, v), small(cs), 0 <= k <= cs.len(), forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs[i].len() ==> 1 <= (#[trigger] cs[i][j]).var() < n
    ensures recs(s, s.len() as int, n) decreases k {
    if k > 0 {
        let c = cs[k - 1]; let m = s.len() - c.len() - 1; let r = s.skip(m);
        c05_records_wf(s0, s.take(m), cs, k - 1, v, n);
        assert(s.take(m).len() == m); assert(s.take(m).take(m) =~= s.take(m));
        lem_recs_take(s.take(m), s, m, n);
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).var() == v && r == fronted(c, i).push(word(c.len() as int));
        assert(r.len() == c.len() + 1);
        assert(r[c.len() as int] == word(c.len() as int));
        assert(s[s.len() - 1] == r[c.len() as int]);
        assert(clause_ok(c));
        assert forall|j: int| m <= j < s.len() - 1 implies (#[trigger] s[j]).wf() && 1 <= s[j].var() < n by { assert(s[j] == r[j - m]); let x = fronted(c, i)[j - m]; assert(r[j - m] == x); let y = if j - m == i { 0 } else if j - m == 0 { i } else { j - m }; assert(x == c[y]); assert(cs[k - 1][y].var() < n); }
    }
}
pub proof fn c05_default_wf(s: Seq<Lit>, x: Lit, n: int) requires recs(s, s.len() as int, n), x.wf(), 1 <= x.var() < n ensures recs(defaulted(s, x), s.len() as int + 2, n) {
    let t = defaulted(s, x); assert(t.take(s.len() as int) =~= s.take(s.len() as int)); lem_recs_take(s, t, s.len() as int, n); assert(t[s.len() as int] == x);
}
pub open spec fn val(m: Model) -> Val { |w: int| m[w] == Some(true) }
pub open spec fn known_but(m: Model, cs: Seq<Seq<Lit>>, v: int) -> bool { forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs[i].len() && (#[trigger] cs[i][j]).var() != v ==> m[cs[i][j].var() as int].is_some() }
/// what handling the records of cs[..k] makes of the variable
pub open spec fn chosen(m: Model, cs: Seq<Seq<Lit>>, k: int, l: Lit, cur: bool) -> bool { if exists|i: int| 0 <= i < k && #[trigger] others_false(val(m), cs[i], l.var() as int) { l.sign() } else { cur } }
/// C05/C07: reading back the records of a variable sets exactly this variable, to the value c07_value_exists needs
proof fn lem_block(m: Model, s0: Seq<Lit>, s: Seq<Lit>, cs: Seq<Seq<Lit>>, k: int, l: Lit, cur: bool)
    requires recorded(s0, s, cs, k, l.var() as int), small(cs), 0 <= k <= cs.len(), l.wf(), 0 <= l.var() < m.len(), known_but(m, cs, l.var() as int), m[l.var() as int] == Some(cur),
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).contains(l)
    ensures extended(m, s, s.len() as int) == extended(m.update(l.var() as int, Some(chosen(m, cs, k, l, cur))), s0, s0.len() as int) decreases k {
    let v = l.var() as int;
    if k > 0 {
        let c = cs[k - 1]; let w = s.len() - c.len() - 1; let r = s.skip(w); let e = s.len() as int;
        assert(clause_ok(c)); assert(c.contains(l));
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).var() == v && r == fronted(c, i).push(word(c.len() as int));
        let x = choose|x: int| 0 <= x < c.len() && c[x] == l;
        assert(i == x) by { if i < x { assert(c[i].var() != c[x].var()); } if x < i { assert(c[x].var() != c[i].var()); } }
        assert(r.len() == c.len() + 1);
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] == s[w + j] by {}
        assert(r[c.len() as int] == word(c.len() as int)); assert(rwidth(s, e) == c.len()) by { assert(s[e - 1] == r[c.len() as int]); }
        assert(s[w] == l) by { assert(r[0] == fronted(c, i)[0]); }
        assert(forced(m, s, w, e) == others_false(val(m), c, v)) by {
            if forced(m, s, w, e) { assert forall|j: int| 0 <= j < c.len() && (#[trigger] c[j]).var() != v implies !vtrue(val(m), c[j]) by { let y = if j == 0 { i } else { j }; assert(j != i); assert(fronted(c, i)[y] == c[j]); assert(r[y] == c[j]); assert(s[w + y] == c[j]); assert(lit_false(m, s[w + y])); } }
            if others_false(val(m), c, v) { assert forall|j: int| w < j < e - 1 implies lit_false(m, #[trigger] s[j]) by { let y = j - w; let z = if y == i { 0 } else { y }; assert(r[y] == fronted(c, i)[y]); assert(fronted(c, i)[y] == c[z]); assert(s[j] == c[z]); assert(z != i);
                if z < i { assert(c[z].var() != c[i].var()); } else { assert(c[i].var() != c[z].var()); } assert(!vtrue(val(m), c[z])); assert(cs[k - 1][z] == c[z]); assert(m[c[z].var() as int].is_some()); let b = m[c[z].var() as int].unwrap(); assert(m[c[z].var() as int] == Some(b)); } }
        }
        let f = others_false(val(m), c, v);
        let m2 = step(m, s, w, e); let cur2 = if f { l.sign() } else { cur };
        assert(m2 =~= m.update(v, Some(cur2)));
        assert(s.take(w).take(w) =~= s.take(w)); lem_take(m2, s, s.take(w), w);
        lem_block(m2, s0, s.take(w), cs, k - 1, l, cur2);
        assert forall|q: int| 0 <= q < cs.len() implies #[trigger] others_false(val(m2), cs[q], v) == others_false(val(m), cs[q], v) by {
            assert forall|j: int| 0 <= j < cs[q].len() && (#[trigger] cs[q][j]).var() != v implies vtrue(val(m2), cs[q][j]) == vtrue(val(m), cs[q][j]) by {}
        }
        assert(chosen(m2, cs, k - 1, l, cur2) == chosen(m, cs, k, l, cur)) by {
            if f { assert(others_false(val(m), cs[k - 1], v)); }
            if exists|q: int| 0 <= q < k - 1 && #[trigger] others_false(val(m2), cs[q], v) { let q = choose|q: int| 0 <= q < k - 1 && #[trigger] others_false(val(m2), cs[q], v); assert(others_false(val(m), cs[q], v)); }
            if !f && exists|q: int| 0 <= q < k && #[trigger] others_false(val(m), cs[q], v) { let q = choose|q: int| 0 <= q < k && #[trigger] others_false(val(m), cs[q], v); assert(q < k - 1); assert(others_false(val(m2), cs[q], v)); }
        }
        let b = chosen(m, cs, k, l, cur);
        assert(m2.update(v, Some(b)) =~= m.update(v, Some(b)));
    } else { assert(m =~= m.update(v, Some(cur))); }
}
/// C05/C07, whole elimination of a variable: ps are the recorded clauses (they contain l), ns the others (they contain its negation).
/// Take any model m of the remaining formula that satisfies the resolvents and gives every other variable of ps a value: reading back
/// the records gives the variable a value that satisfies all the removed clauses, and goes on with the earlier records.
pub proof fn c07_elimination_undone(m: Model, s0: Seq<Lit>, s: Seq<Lit>, ps: Seq<Seq<Lit>>, ns: Seq<Seq<Lit>>, l: Lit)
    requires sides(ps, ns, l), small(ps), recorded(s0, s, ps, ps.len() as int, l.var() as int), 0 <= l.var() < m.len(), known_but(m, ps, l.var() as int), resolvents_hold(val(m), ps, ns, l.var() as int)
    ensures exists|b: bool| #![trigger set_val(val(m), l.var() as int, b)] extended(m, defaulted(s, l.neg()), s.len() as int + 2) == extended(m.update(l.var() as int, Some(b)), s0, s0.len() as int)
        && (forall|i: int| 0 <= i < ps.len() ==> satisfies(set_val(val(m), l.var() as int, b), #[trigger] ps[i])) && (forall|i: int| 0 <= i < ns.len() ==> satisfies(set_val(val(m), l.var() as int, b), #[trigger] ns[i])) {
    let v = l.var() as int; let d = defaulted(s, l.neg()); let e = s.len() as int + 2;
    lem_neg_props(l);
    assert(d[e - 1] == word(1)); assert(d[e - 2] == l.neg());
    assert(forced(m, d, e - 2, e));
    let m1 = m.update(v, Some(!l.sign()));
    assert(step(m, d, e - 2, e) == m1);
    assert(d.take(e - 2) =~= s.take(s.len() as int)); lem_take(m1, d, s, s.len() as int);
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).contains(l) by {}
    assert(known_but(m1, ps, v)) by { assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps[i].len() && (#[trigger] ps[i][j]).var() != v implies m1[ps[i][j].var() as int].is_some() by {} }
    lem_block(m1, s0, s, ps, ps.len() as int, l, !l.sign());
    let b = chosen(m1, ps, ps.len() as int, l, !l.sign());
    assert(m1.update(v, Some(b)) =~= m.update(v, Some(b)));
    assert forall|q: int| 0 <= q < ps.len() implies #[trigger] others_false(val(m1), ps[q], v) == others_false(val(m), ps[q], v) by {
        assert forall|j: int| 0 <= j < ps[q].len() && (#[trigger] ps[q][j]).var() != v implies vtrue(val(m1), ps[q][j]) == vtrue(val(m), ps[q][j]) by {}
    }
    c07_value_exists(val(m), ps, ns, l);
    let b2 = if exists|i: int| 0 <= i < ps.len() && #[trigger] others_false(val(m), ps[i], v) { l.sign() } else { !l.sign() };
    assert(b == b2) by {
        if exists|q: int| 0 <= q < ps.len() && #[trigger] others_false(val(m), ps[q], v) { let q = choose|q: int| 0 <= q < ps.len() && #[trigger] others_false(val(m), ps[q], v); assert(others_false(val(m1), ps[q], v)); }
        if exists|q: int| 0 <= q < ps.len() && #[trigger] others_false(val(m1), ps[q], v) { let q = choose|q: int| 0 <= q < ps.len() && #[trigger] others_false(val(m1), ps[q], v); assert(others_false(val(m), ps[q], v)); }
    }
    assert(set_val(val(m), v, b) == set_val(val(m), v, b2));
}
// ---- C08: subsumption
pub open spec fn subset(c: Seq<Lit>, d: Seq<Lit>) -> bool { forall|i: int| 0 <= i < c.len() ==> d.contains(#[trigger] c[i]) }
pub proof fn c08_subsumed_follows(m: Val, c: Seq<Lit>, d: Seq<Lit>) requires subset(c, d), satisfies(m, c) ensures satisfies(m, d) {
    let i = choose|i: int| 0 <= i < c.len() && vtrue(m, #[trigger] c[i]); assert(d.contains(c[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == c[i]; assert(vtrue(m, d[j]));
}
pub proof fn c08_strengthened_follows(m: Val, d: Seq<Lit>, d2: Seq<Lit>, l: Lit) requires l.wf(), vtrue(m, l), satisfies(m, d), forall|k: Lit| d.contains(k) && k != l.neg() ==> d2.contains(k) ensures satisfies(m, d2) {
    lem_neg_props(l); let i = choose|i: int| 0 <= i < d.len() && vtrue(m, #[trigger] d[i]); assert(d.contains(d[i])); assert(d2.contains(d[i])); let j = choose|j: int| 0 <= j < d2.len() && d2[j] == d[i]; assert(vtrue(m, d2[j]));
}
"""


LI = "#[verifier::loop_isolation(false)]"
CTX = "p == c_p.lits@, q == c_q.lits@, v == vi, clause_ok(p), clause_ok(q), p.len() < 0x4000_0000, q.len() < 0x4000_0000, live(asg, q), only(p, v, k), only(q, v, k.neg()), k.wf(), p.contains(k), q.contains(k.neg())"
CNT = """count == pick(p, %s as int, q, v).len(), count <= p.len(), pick(p, p.len() as int, q, v).len() <= p.len(), forall|i: int| 0 <= i < %s && (#[trigger] p[i]).var() != v ==> !q.contains(p[i].neg()),
            cond.is_none() ==> forall|i: int| 0 <= i < %s ==> (#[trigger] p[i]).var() != v, cond.is_some() ==> cond == Some(k)""".replace("%s", "IDX").replace("IDX", "%(i)s")


def unit():
    u = Unit("elim")
    clause.types(u)
    flags(u, "FlagVar")
    u.text(u_assign.FLOAT)
    u.text("pub type DecisionLevel = u32;")
    u.enum("assign", "AssignReason", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.struct("types::var", "Var")
    u.struct("assign::stack", "AssignStack", keep=["var"])
    u.struct("cdb::db", "ClauseDB", keep=["clause"])
    clause.fns(u)
    clause.index(u)
    u.text(u_model.TEXT)
    u.text(TEXT)
    u.text(REC)
    f = u.fn
    E = "processor::eliminate"
    f("types::var", "impl FlagIF for Var", "is", into="Var", subst=[("Self :: FlagType", "FlagVar")], spec="ensures flag == FlagVar::ELIMINATED ==> r == self.flags.eliminated")
    f("assign::stack", "impl VarManipulateIF for AssignStack", "var", into="AssignStack", spec="requires vi < self.var@.len(), ensures *r == self.var@[vi as int]")
    IT = [("$x . iter ( )", "$x . lits . iter ( )")]
    f(E, None, "merge", nloops=3, subst=CDBSIG + AT + IT,
      spec="""requires old(cdb).has(cip), old(cdb).has(ciq),
    ensures *final(cdb) == *old(cdb), *final(asg) == *old(asg), clash(old(cdb).lits(cip), old(cdb).lits(ciq), vi as int) ==> r == 0 && final(vec)@.len() == 0,
        !clash(old(cdb).lits(cip), old(cdb).lits(ciq), vi as int) ==> r == final(vec)@.len() && resolvent(final(vec)@, old(cdb).lits(cip), old(cdb).lits(ciq), vi as int)""",
      loops={0: {"it": "it0", "inv": "invariant *cdb == *old(cdb), pb.ok(), qb.ok(), verif_r0 <==> exists|i: int| 0 <= i < it0.index() && (#[trigger] pb.lits@[i]).var() != vi && qb.lits@.contains(pb.lits@[i].neg()),"},
             1: {"it": "it1", "inv": "invariant pb.ok(), qb.ok(), verif_r1@ == pick(pb.lits@, it1.index() as int, qb.lits@, vi as int),"},
             2: {"it": "it2", "inv": "invariant pb.ok(), qb.ok(), verif_r3@ == pick(qb.lits@, it2.index() as int, Seq::empty(), vi as int),"}},
      ghost=[("before", "if { let mut verif_r0", "proof { if clash(pb.lits@, qb.lits@, vi as int) { lem_clash(pb.lits@, qb.lits@, vi as int); } if clash(qb.lits@, pb.lits@, vi as int) { lem_clash(qb.lits@, pb.lits@, vi as int); } }"),
        ("before", "std :: mem :: swap", "proof { lem_merged(pb.lits@, qb.lits@, vi as int); }")])
    f(E, None, "merge_cost", nloops=3, subst=CDBSIG + AT + IT + [("$x . map ( | _ | $$e )", "( match $x { Some ( _ ) => Some ( $$e ) , None => None } )")],
      spec="""requires cdb.has(cp), cdb.has(cq), live(asg, cdb.lits(cq)), exists|l: Lit| l.var() == vi && #[trigger] opposed(cdb.lits(cp), cdb.lits(cq), l),
        cdb.lits(cp).len() < 0x4000_0000, cdb.lits(cq).len() < 0x4000_0000,
    ensures clash(cdb.lits(cp), cdb.lits(cq), vi as int) ==> r == Some(0usize),
        !clash(cdb.lits(cp), cdb.lits(cq), vi as int) ==> r == Some(merged(cdb.lits(cp), cdb.lits(cq), vi as int).len() as usize)""",
      pre="let ghost p = cdb.lits(cp); let ghost q = cdb.lits(cq); let ghost v = vi as int; let ghost k = choose|k: Lit| k.var() == vi && opposed(p, q, k); proof { lem_opposed(p, q, k); lem_pick(p, p.len() as int, q, v); }",
      ghost=[("before", "return Some ( 0 )", "proof { lem_neg_props(*lit); assert(q.contains(q[verif_i1 - 1])); assert(clash(p, q, v)); }"),
        ("before", "continue 'next_lit", "proof { lem_hit(q, verif_i1 - 1, *lit); }"),
        ("before", "count += 1", "proof { assert(!q.contains(*lit)); assert(!q.contains(lit.neg())); }"),
        ("before", "cond ? ;", "proof { if cond.is_none() { let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(p[i].var() == v); } assert(!clash(p, q, v)); }"),
        ("before", "( match cond2", "proof { if cond2.is_none() { let i = choose|i: int| 0 <= i < q.len() && q[i] == k.neg(); assert(q[i].var() == v); } }")],
      loops={0: {"inv": f"invariant verif_i0 <= p.len(), verif_s0@ == p, {CTX}, {CNT % {'i': 'verif_i0'}}, decreases p.len() - verif_i0,", "attr": LI, "top": "proof { lem_pick(p, verif_i0 as int, q, v); lem_pick(p, verif_i0 + 1, q, v); }"},
        1: {"inv": f"""invariant verif_i1 <= q.len(), verif_s1@ == q, 0 < verif_i0 <= p.len(), verif_s0@ == p, {CTX}, {CNT % {'i': '(verif_i0 - 1)'}}, *lit == p[verif_i0 - 1], lit.var() != v,
            forall|j: int| 0 <= j < verif_i1 ==> (#[trigger] q[j]) != *lit && q[j] != lit.neg(), decreases q.len() - verif_i1,""", "attr": LI},
        2: {"inv": f"""invariant verif_i2 <= q.len(), verif_s2@ == q, {CTX}, cond == Some(k), pick(p, p.len() as int, q, v).len() < 0x4000_0000,
            count == pick(p, p.len() as int, q, v).len() + pick(q, verif_i2 as int, Seq::empty(), v).len(), count <= pick(p, p.len() as int, q, v).len() + verif_i2,
            cond2.is_none() ==> forall|i: int| 0 <= i < verif_i2 ==> (#[trigger] q[i]).var() != v, decreases q.len() - verif_i2,""", "attr": LI}})
    f(E, None, "make_eliminating_unit_clause", subst=[("Lit :: from ( 1usize )", "Lit :: from_usize ( 1usize )", 1)], spec="ensures final(store)@ == defaulted(old(store)@, x)")
    f(E, None, "make_eliminated_clause", nloops=1, subst=CDBSIG + AT + IT + [("Lit :: from ( c . len ( ) )", "Lit :: from_usize ( c . len ( ) )", 1)],
      spec="""requires old(cdb).has(cid), contains_var(old(cdb).lits(cid), vi as int), old(cdb).lits(cid).len() < 0x4000_0000,
    ensures *final(cdb) == *old(cdb), final(store)@.len() == old(store)@.len() + old(cdb).lits(cid).len() + 1, final(store)@.take(old(store)@.len() as int) == old(store)@, record_of(final(store)@.skip(old(store)@.len() as int), old(cdb).lits(cid), vi as int)""",
      pre="let ghost s0 = store@; let ghost cl = cdb.lits(cid); let ghost vx = choose|i: int| 0 <= i < cl.len() && (#[trigger] cl[i]).var() == vi;",
      ghost=[("before", "store . push ( Lit", "proof { assert(cl.take(cl.len() as int) =~= cl); assert(tail == fronted(cl, vx)); }"),
         ("before", "for l in", "let ghost mut tail = Seq::<Lit>::empty(); proof { assert(s0 + tail =~= s0); }")],
      loops={0: {"it": "it", "inv": """invariant *cdb == *old(cdb), cl == c.lits@, c.ok(), 0 <= vx < cl.len(), cl[vx].var() == vi, first == s0.len(), store@ == s0 + tail, tail.len() == it.index(),
            it.index() <= vx ==> tail == cl.take(it.index() as int), it.index() > vx ==> tail == fronted(cl.take(it.index() as int), vx),""",
         "top": "let ghost i = it.index() as int; let ghost t0 = tail; proof { if i < vx { assert(cl[i].var() != cl[vx].var()); } if vx < i { assert(cl[vx].var() != cl[i].var()); } assert(cl.take(i + 1) =~= cl.take(i).push(cl[i])); }",
         "bottom": """proof { if i == vx { tail = t0.push(cl[i]).update(0, cl[i]).update(i, t0.push(cl[i])[0]); assert(tail =~= fronted(cl.take(i + 1), vx)); } else { tail = t0.push(cl[i]);
            if i > vx { assert(tail =~= fronted(cl.take(i + 1), vx)); } } assert(store@ =~= s0 + tail); }"""}},
      post="proof { assert(store@.take(s0.len() as int) =~= s0); assert(store@.skip(s0.len() as int) =~= fronted(cl, vx).push(word(cl.len() as int))); }")
    REQ = "*cdb == *old(cdb), %s.len() <= old(cdb).clause@.len(), small(cs), 1 <= v, cs == old(cdb).seqs(%s@), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).contains(%s),"
    def mk(s, l):
        return {"it": f"it{s}", "inv": f"""invariant *cdb == *old(cdb), 1 <= v < 0x4000_0000, small(cs), cs == old(cdb).seqs({s}@), forall|i: int| 0 <= i < {s}@.len() ==> (#[trigger] {s}@[i]).ord() < old(cdb).clause@.len(),
            forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).contains({l}), recorded(s0, store@, cs, it{s}.index() as int, v as int),""",
            "top": f"let ghost i = it{s}.index() as int; let ghost sa = store@; proof {{ assert(cs[i] == cdb.lits({s}@[i])); assert(cs[i].contains({l})); let x = choose|x: int| 0 <= x < cs[i].len() && cs[i][x] == {l}; lem_neg_props(lit_of(v as int)); assert(cs[i][x].var() == v); }}"}
    f(E, None, "make_eliminated_clauses", nloops=2, subst=CDBSIG + [("Lit :: from ( ( $$x ) )", "Lit :: from_vb ( ( $$x ) )"), ("for $x in neg", "for $x in neg . iter ( )"), ("for $x in pos", "for $x in pos . iter ( )")],
      spec="""requires 1 <= v < 0x4000_0000, forall|i: int| 0 <= i < pos@.len() ==> (#[trigger] pos@[i]).ord() < old(cdb).clause@.len(), forall|i: int| 0 <= i < neg@.len() ==> (#[trigger] neg@[i]).ord() < old(cdb).clause@.len(),
        small(old(cdb).seqs(pos@)), small(old(cdb).seqs(neg@)), sides(old(cdb).seqs(pos@), old(cdb).seqs(neg@), lit_of(v as int)),
    ensures *final(cdb) == *old(cdb), 
        pos@.len() <= neg@.len() ==> exists|s: Seq<Lit>| #[trigger] recorded(old(store)@, s, old(cdb).seqs(pos@), pos@.len() as int, v as int) && final(store)@ == defaulted(s, lit_of(v as int).neg()),
        neg@.len() < pos@.len() ==> exists|s: Seq<Lit>| #[trigger] recorded(old(store)@, s, old(cdb).seqs(neg@), neg@.len() as int, v as int) && final(store)@ == defaulted(s, lit_of(v as int))""",
      pre="let ghost s0 = store@; let ghost cs = if neg@.len() < pos@.len() { cdb.seqs(neg@) } else { cdb.seqs(pos@) };",
      loops={0: mk("neg", "lit_of(v as int).neg()"), 1: mk("pos", "lit_of(v as int)")},
      ghost=[("before", "make_eliminating_unit_clause", "let ghost sx = store@;", 0), ("before", "make_eliminating_unit_clause", "let ghost sx = store@;", 1),
        ("after_stmt", "make_eliminating_unit_clause", "proof { lem_neg_props(lit_of(v as int).neg()); assert(recorded(s0, sx, cs, neg@.len() as int, v as int)); assert(store@ == defaulted(sx, lit_of(v as int))); }", 0),
        ("after_stmt", "make_eliminating_unit_clause", "proof { assert(recorded(s0, sx, cs, pos@.len() as int, v as int)); assert(store@ == defaulted(sx, lit_of(v as int).neg())); }", 1)])
    B = "processor::subsume"
    u.enum(B, "Subsumable", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    f(B, None, "have_subsuming_lit", nloops=3, subst=CDBSIG + AT + IT + [("Lit :: from ( cid )", "Lit :: from_cid ( cid )", 1)],
      spec="""requires old(cdb).has(other), !cid.lifted() ==> old(cdb).has(cid), cid.ord() > 0x8000_0001 || !cid.lifted(),
    ensures *final(cdb) == *old(cdb),
        !cid.lifted() ==> r == (if subset(old(cdb).lits(cid), old(cdb).lits(other)) { Subsumable::Success } else { Subsumable::None }),
        cid.lifted() ==> { let l = word(cid.ord() - 0x8000_0000); r == (if old(cdb).lits(other).contains(l.neg()) { Subsumable::By(l) } else { Subsumable::None }) }""",
      loops={0: {"it": "it0", "inv": "invariant *cdb == *old(cdb), oh.lits@ == old(cdb).lits(other), oh.ok(), cid.lifted(), l == word(cid.ord() - 0x8000_0000), l.wf(), forall|j: int| 0 <= j < it0.index() ==> (#[trigger] oh.lits@[j]) != l.neg(),",
            "top": "proof { assert(oh.lits@[it0.index() as int].wf()); lem_neg_props(l); lem_neg_props(*lo); }"},
        1: {"inv": "invariant *cdb == *old(cdb), verif_s0@ == cl, cl == ch.lits@, dl == ob.lits@, verif_i0 <= cl.len(), forall|i: int| 0 <= i < verif_i0 ==> dl.contains(#[trigger] cl[i]), decreases cl.len() - verif_i0,", "attr": LI},
        2: {"inv": "invariant *cdb == *old(cdb), verif_s0@ == cl, verif_s1@ == dl, 0 < verif_i0 <= cl.len(), verif_i1 <= dl.len(), *l == cl[verif_i0 - 1], forall|i: int| 0 <= i < verif_i0 - 1 ==> dl.contains(#[trigger] cl[i]), forall|j: int| 0 <= j < verif_i1 ==> #[trigger] dl[j] != *l, decreases dl.len() - verif_i1,", "attr": LI}},
      ghost=[("after_stmt", "let ob =", "let ghost cl = ch.lits@; let ghost dl = ob.lits@;"), ("before", "continue 'next", "proof { assert(dl[verif_i1 - 1] == *l); }"), ("before", "return Subsumable :: None", "proof { assert(!dl.contains(cl[verif_i0 - 1])); }", 1)])
    return u
