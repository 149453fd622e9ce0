"""extending a model over eliminated variables (C05, C07)"""
import u_assign
import u_lit
from unit import Unit

TEXT = r"""
impl AssignStack {
    pub open spec fn nv(&self) -> int { self.var@.len() - 1 }
}
pub type Model = Seq<Option<bool>>;
pub open spec fn lit_true(m: Model, l: Lit) -> bool { m[l.var() as int] == Some(l.sign()) }
pub open spec fn lit_false(m: Model, l: Lit) -> bool { m[l.var() as int] == Some(!l.sign()) }
pub open spec fn known(m: Model, l: Lit) -> bool { m[l.var() as int].is_some() }
pub open spec fn in_model(m: Model, l: Lit) -> bool { l.wf() && 1 <= l.var() < m.len() }
/// length of the record that ends at e (its last word is the length)
pub open spec fn rwidth(s: Seq<Lit>, e: int) -> int { s[e - 1].ord() as int }
/// s[..e] is a sequence of records: a target literal, the other literals of the clause, the length
pub open spec fn recs(s: Seq<Lit>, e: int, n: int) -> bool decreases e {
    e <= 0 && e == 0 || e > 0 && 1 <= rwidth(s, e) <= e - 1 && (forall|i: int| e - 1 - rwidth(s, e) <= i < e - 1 ==> (#[trigger] s[i]).wf() && 1 <= s[i].var() < n) && recs(s, e - 1 - rwidth(s, e), n)
}
/// every other literal of the record [t, e) is false
pub open spec fn forced(m: Model, s: Seq<Lit>, t: int, e: int) -> bool { forall|i: int| t < i < e - 1 ==> lit_false(m, #[trigger] s[i]) }
pub open spec fn step(m: Model, s: Seq<Lit>, t: int, e: int) -> Model { if forced(m, s, t, e) { m.update(s[t].var() as int, Some(s[t].sign())) } else { m } }
/// the model after handling the records of s[..e] from the last to the first
pub open spec fn extended(m: Model, s: Seq<Lit>, e: int) -> Model decreases e {
    if e <= 0 || !(1 <= rwidth(s, e) <= e - 1) { m } else { extended(step(m, s, e - 1 - rwidth(s, e), e), s, e - 1 - rwidth(s, e)) }
}
/// v is the target of a record of s[..e]
pub open spec fn is_target(s: Seq<Lit>, e: int, v: int) -> bool decreases e {
    e > 0 && 1 <= rwidth(s, e) <= e - 1 && (s[e - 1 - rwidth(s, e)].var() == v || is_target(s, e - 1 - rwidth(s, e), v))
}
/// l is the target literal of a record of s[..e]
pub open spec fn targets(s: Seq<Lit>, e: int, l: Lit) -> bool decreases e {
    e > 0 && 1 <= rwidth(s, e) <= e - 1 && (s[e - 1 - rwidth(s, e)] == l || targets(s, e - 1 - rwidth(s, e), l))
}
/// C05: no variable but a target changes
pub proof fn c05_others_unchanged(m: Model, s: Seq<Lit>, e: int, v: int)
    requires recs(s, e, m.len() as int), !is_target(s, e, v)
    ensures extended(m, s, e)[v] == m[v], extended(m, s, e).len() == m.len() decreases e {
    if e > 0 { let t = e - 1 - rwidth(s, e); c05_others_unchanged(step(m, s, t, e), s, t, v); }
}
proof fn lem_len(m: Model, s: Seq<Lit>, e: int) requires recs(s, e, m.len() as int) ensures extended(m, s, e).len() == m.len() decreases e {
    if e > 0 { let t = e - 1 - rwidth(s, e); lem_len(step(m, s, t, e), s, t); }
}
/// a literal that is true stays true unless its negation is a target met later
proof fn lem_stays(m: Model, s: Seq<Lit>, e: int, l: Lit)
    requires recs(s, e, m.len() as int), in_model(m, l), lit_true(m, l), !targets(s, e, l.neg())
    ensures lit_true(extended(m, s, e), l) decreases e {
    if e > 0 { let t = e - 1 - rwidth(s, e); let m2 = step(m, s, t, e);
        assert(lit_true(m2, l)) by { if forced(m, s, t, e) && s[t].var() == l.var() { assert(s[t].wf()); assert(s[t] != l.neg()); lem_neg(l, s[t]); } }
        lem_stays(m2, s, t, l); }
}
proof fn lem_neg(l: Lit, k: Lit) requires l.wf(), k.wf(), l.var() == k.var(), k != l.neg() ensures k == l, k.sign() == l.sign() {
    let a = l.ordinal.v; let b = k.ordinal.v;
    assert(a / 2 == b / 2 && a >= 2 && b >= 2 ==> (a == b || (a % 2 == 0 && b == a + 1) || (a % 2 == 1 && b == a - 1))) by (bit_vector);
}
/// C05/C07: a record whose literals are not negated by a later target (records are met from the last to the first) is satisfied by
/// the result, provided its other literals had a value when it was met
pub proof fn c05_record_satisfied(m: Model, s: Seq<Lit>, e: int)
    requires recs(s, e, m.len() as int), e > 0,
        forall|i: int| e - 1 - rwidth(s, e) < i < e - 1 ==> known(m, #[trigger] s[i]),
        forall|i: int| e - 1 - rwidth(s, e) <= i < e - 1 ==> !targets(s, e - 1 - rwidth(s, e), (#[trigger] s[i]).neg()),
    ensures exists|i: int| e - 1 - rwidth(s, e) <= i < e - 1 && lit_true(extended(m, s, e), #[trigger] s[i]) {
    let t = e - 1 - rwidth(s, e);
    let m2 = step(m, s, t, e);
    if forced(m, s, t, e) { assert(lit_true(m2, s[t])); lem_stays(m2, s, t, s[t]); assert(lit_true(extended(m, s, e), s[t])); }
    else { let i = choose|i: int| t < i < e - 1 && !lit_false(m, #[trigger] s[i]); assert(s[i].wf()); assert(known(m, s[i])); assert(in_model(m2, s[i])); let x = m[s[i].var() as int].unwrap(); assert(m[s[i].var() as int] == Some(x)); assert(m2 == m); lem_stays(m2, s, t, s[i]); assert(lit_true(extended(m, s, e), s[i])); }
}
/// a value once given is never taken away, and every target gets one when its shortest record is met
pub proof fn c05_total(m: Model, s: Seq<Lit>, e: int, v: int)
    requires recs(s, e, m.len() as int), 0 <= v < m.len(), m[v].is_some()
    ensures extended(m, s, e)[v].is_some() decreases e {
    if e > 0 { let t = e - 1 - rwidth(s, e); c05_total(step(m, s, t, e), s, t, v); }
}
/// a record of length 1 (the default value of an eliminated variable) always gives its variable a value
pub proof fn c05_default_given(m: Model, s: Seq<Lit>, e: int)
    requires recs(s, e, m.len() as int), e > 0, rwidth(s, e) == 1
    ensures extended(m, s, e)[s[e - 2].var() as int].is_some() {
    assert(forced(m, s, e - 2, e)); c05_total(step(m, s, e - 2, e), s, e - 2, s[e - 2].var() as int);
}
"""


def unit():
    u = Unit("model")
    u_assign.types(u)
    u.struct("assign::stack", "AssignStack", keep=["var", "eliminated"])
    u.text(TEXT)
    u.text("pub struct ClauseDB { }")
    f = u.fn
    ai = "impl AssignIF for AssignStack"
    A = "assign::stack"
    f(A, ai, "assign_ref", into="AssignStack", spec="ensures r@.len() == self.var@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.var@[i].assign", nloops=1,
      loops={0: {"it": "it", "inv": "invariant verif_r0@.len() == it.index(), forall|i: int| 0 <= i < verif_r0@.len() ==> #[trigger] verif_r0@[i] == self.var@[i].assign"}})
    INV = "invariant e == target_index + width + 1, 1 <= width, e <= lits@.len(), recs(lits@, e, extended_model@.len() as int), extended_model@.len() == self.var@.len(), reason_literals.0 == target_index + 1, reason_literals.1 == e - 2, width == rwidth(lits@, e)%s"
    inv = "invariant target_index < last_lit_index + 1 <= lits@.len(), verif_r%d == (forall|k: int| target_index < k < target_index + 1 + it.index() ==> lit_false(extended_model@, #[trigger] lits@[k]))"
    f(A, ai, "extend_model", into="AssignStack", sig="fn extend_model ( & mut self ) -> (r: Vec<Option<bool>>)", spec="""
    requires recs(old(self).eliminated@, old(self).eliminated@.len() as int, old(self).var@.len() as int),
    ensures r@ == extended(old(self).var@.map(|i: int, v: Var| v.assign), old(self).eliminated@, old(self).eliminated@.len() as int), *final(self) == *old(self)""",
      subst=[("lits [ reason_literals . clone ( ) ]", "vstd :: slice :: slice_subrange ( lits . as_slice ( ) , reason_literals . 0 , reason_literals . 1 + 1 )"), ("let reason_literals = $$a ..= $$b ;", "let reason_literals = ( $$a , $$b ) ;", 1)],
      ghost=[("after_stmt", "let mut extended_model", "let ghost m0 = extended_model@; proof { assert(m0 =~= self.var@.map(|i: int, v: Var| v.assign)); }"),
             ("before", "i -= 1", "let ghost e = i as int;"),
             ("before", "if {", "proof { assert(1 <= lits@[e - 1].ord()); assert(lits@[e - 1].ord() <= e - 1); }")],
      loops={0: {"inv": "invariant i <= lits@.len(), lits@ == self.eliminated@, *self == *old(self), recs(lits@, i as int, extended_model@.len() as int), extended_model@.len() == self.var@.len(), extended(extended_model@, lits@, i as int) == extended(m0, lits@, lits@.len() as int), decreases i", "after": "proof { assert(i == 0); }"},
        1: {"it": "it", "inv": INV % ", verif_r0 == (forall|k: int| target_index < k < target_index + 1 + it.index() ==> lit_false(extended_model@, #[trigger] lits@[k]))"},
        2: {"it": "it", "inv": INV % ""}})
    return u
