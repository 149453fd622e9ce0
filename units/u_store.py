"""questions asked of the clause store: validation, the clause limit (C15, C16)"""
import clause
import u_assign
from clause import CDBSIG
from unit import Unit

RLIMIT = 60
TEXT = r"""
/// what a list of values makes of a literal and of a clause
pub open spec fn mtrue(m: Seq<Option<bool>>, l: Lit) -> bool { m[l.var() as int] == Some(l.sign()) }
pub open spec fn mfalse(m: Seq<Option<bool>>, l: Lit) -> bool { m[l.var() as int] == Some(!l.sign()) }
pub open spec fn made_true(m: Seq<Option<bool>>, s: Seq<Lit>) -> bool { exists|i: int| 0 <= i < s.len() && mtrue(m, #[trigger] s[i]) }
pub open spec fn made_false(m: Seq<Option<bool>>, s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> mfalse(m, #[trigger] s[i]) }
pub open spec fn tri(m: Seq<Option<bool>>, s: Seq<Lit>) -> Option<bool> { if made_true(m, s) { Some(true) } else if made_false(m, s) { Some(false) } else { None } }
pub open spec fn nums_of(s: Seq<Lit>) -> Seq<i32> { s.map(|i: int, l: Lit| l.num() as i32) }
pub open spec fn fits(m: Seq<Option<bool>>, s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && s[i].var() < m.len() }
impl ClauseDB {
    pub open spec fn lits(&self, i: int) -> Seq<Lit> { self.clause@[i].lits@ }
    /// slot i holds a clause the validator looks at
    pub open spec fn judged(&self, i: int, strict: bool) -> bool { 1 <= i < self.clause@.len() && self.lits(i).len() > 0 && !(strict && self.clause@[i].flags.learnt) }
    pub open spec fn accepted(&self, m: Seq<Option<bool>>, i: int, strict: bool) -> bool { if strict { made_true(m, self.lits(i)) } else { tri(m, self.lits(i)) != Some(false) } }
}
/// C15: an assignment (as the values of a list) makes a clause true exactly when it satisfies it
pub proof fn c15_total(m: Seq<Option<bool>>, s: Seq<Lit>, v: Val) requires fits(m, s), forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == Some(v(i)) ensures made_true(m, s) == satisfies(v, s), tri(m, s) == Some(satisfies(v, s)) {
    assert forall|i: int| 0 <= i < s.len() implies mtrue(m, #[trigger] s[i]) == vtrue(v, s[i]) && mfalse(m, s[i]) == !vtrue(v, s[i]) by { assert(s[i].wf()); assert(m[s[i].var() as int] == Some(v(s[i].var() as int))); }
    if made_true(m, s) { let i = choose|i: int| 0 <= i < s.len() && mtrue(m, #[trigger] s[i]); assert(vtrue(v, s[i])); }
    if satisfies(v, s) { let i = choose|i: int| 0 <= i < s.len() && vtrue(v, #[trigger] s[i]); assert(mtrue(m, s[i])); }
}
"""
ASSIGN = r"""
impl AssignStack {
    pub open spec fn values(&self) -> Seq<Option<bool>> { self.var@.map(|i: int, v: Var| v.assign) }
    pub open spec fn in_range(&self, x: i32) -> bool { x != 0 && -(self.nv() as int) <= x <= self.nv() }
    /// literals of the first k numbers that the solver's top-level values or an earlier number contradict
    pub open spec fn agrees(&self, s: Seq<i32>, k: int) -> bool {
        &&& forall|i: int| 0 <= i < k ==> self.root_value(lit_of(#[trigger] s[i] as int).var() as int) != Some(!(s[i] > 0))
        &&& forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> #[trigger] s[i] != -(#[trigger] s[j])
    }
    /// o: this solver's assignment at the top level with the first k numbers added
    pub open spec fn injected(&self, o: &AssignStack, s: Seq<i32>, k: int) -> bool {
        &&& o.wf() && o.queue_ok() && (k > 0 ==> o.trail_lim@.len() == 0)
        &&& o.var@.len() == self.var@.len() && o.num_vars == self.num_vars && o.eliminated == self.eliminated
        &&& forall|i: int| 0 <= i < k ==> o.root_value(lit_of(#[trigger] s[i] as int).var() as int) == Some(s[i] > 0)
        &&& forall|v: int| 1 <= v <= self.nv() && (forall|i: int| 0 <= i < k ==> lit_of(#[trigger] s[i] as int).var() != v) ==> #[trigger] o.root_value(v) == self.root_value(v)
    }
    proof fn lem_conflict(&self, o: &AssignStack, s: Seq<i32>, k: int)
        requires self.injected(o, s, k), 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() ==> self.in_range(#[trigger] s[i]), self.nv() < 0x4000_0000, o.root_value(lit_of(s[k] as int).var() as int) == Some(!(s[k] > 0))
        ensures !self.agrees(s, s.len() as int) {
        let v = lit_of(s[k] as int).var() as int; assert(self.in_range(s[k]));
        if self.agrees(s, s.len() as int) {
            if exists|i: int| 0 <= i < k && lit_of(#[trigger] s[i] as int).var() == v { let i = choose|i: int| 0 <= i < k && lit_of(#[trigger] s[i] as int).var() == v; assert(self.in_range(s[i])); assert(s[i] == -s[k]); }
            else { assert(o.root_value(v) == self.root_value(v)); }
        }
    }
    proof fn lem_step(&self, o: &AssignStack, n: &AssignStack, s: Seq<i32>, k: int)
        requires self.injected(o, s, k), self.agrees(s, k), 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() ==> self.in_range(#[trigger] s[i]), self.nv() < 0x4000_0000, n.wf(), n.queue_ok(), n.trail_lim@.len() == 0,
            n.var@.len() == o.var@.len() && n.num_vars == o.num_vars && n.eliminated == o.eliminated, o.root_value(lit_of(s[k] as int).var() as int) != Some(!(s[k] > 0)),
            n.root_value(lit_of(s[k] as int).var() as int) == Some(s[k] > 0),
            forall|v: int| #![trigger n.var@[v]] 1 <= v <= o.nv() && v != lit_of(s[k] as int).var() ==> n.value(v) == o.root_value(v)
        ensures self.injected(n, s, k + 1), self.agrees(s, k + 1) {
        let w = lit_of(s[k] as int).var() as int; assert(self.in_range(s[k]));
        assert forall|v: int| 1 <= v <= o.nv() && v != w implies #[trigger] n.root_value(v) == o.root_value(v) by { n.lem_level0(v); assert(n.var@[v] == n.var@[v]); }
        assert forall|i: int| 0 <= i < k + 1 implies n.root_value(lit_of(#[trigger] s[i] as int).var() as int) == Some(s[i] > 0) by {
            let v = lit_of(s[i] as int).var() as int; assert(self.in_range(s[i])); if i < k && v == w { assert(o.root_value(v) == Some(s[i] > 0)); } }
        assert forall|i: int| 0 <= i < k + 1 implies self.root_value(lit_of(#[trigger] s[i] as int).var() as int) != Some(!(s[i] > 0)) by {
            if i == k { if exists|j: int| 0 <= j < k && lit_of(#[trigger] s[j] as int).var() == w { let j = choose|j: int| 0 <= j < k && lit_of(#[trigger] s[j] as int).var() == w; assert(self.root_value(lit_of(s[j] as int).var() as int) != Some(!(s[j] > 0))); assert(o.root_value(w) == Some(s[j] > 0)); } else { assert(o.root_value(w) == self.root_value(w)); } } }
        assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < k + 1 implies #[trigger] s[i] != -(#[trigger] s[j]) by {
            assert(self.in_range(s[i])); assert(self.in_range(s[j]));
            if s[i] == -s[j] { if i == k && j < k { assert(o.root_value(lit_of(s[j] as int).var() as int) == Some(s[j] > 0)); } if j == k && i < k { assert(o.root_value(lit_of(s[i] as int).var() as int) == Some(s[i] > 0)); } } }
        assert forall|v: int| 1 <= v <= self.nv() && (forall|i: int| 0 <= i < k + 1 ==> lit_of(#[trigger] s[i] as int).var() != v) implies #[trigger] n.root_value(v) == self.root_value(v) by { assert(lit_of(s[k] as int).var() != v); assert(o.root_value(v) == self.root_value(v)); }
    }
}
/// C15: after loading, the value of a variable is its top-level value
pub proof fn c15_loaded(a: &AssignStack, o: &AssignStack, s: Seq<i32>, i: int)
    requires a.injected(o, s, s.len() as int), 0 <= i < s.len(), a.in_range(s[i]) ensures o.value(lit_of(s[i] as int).var() as int) == Some(s[i] > 0) { let v = lit_of(s[i] as int).var() as int; o.lem_level0(v); }
"""
ABS = "pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -(x as int) } else { x as int });"


def unit():
    u = Unit("store")
    u_assign.stack(u)
    clause.types(u, base=False)
    u.struct("cdb::db", "ClauseDB", keep=["clause", "soft_limit", "num_clause", "num_bi_clause", "num_bi_clause_completion", "num_bi_learnt", "num_lbd2", "num_learnt", "num_reduction", "num_reregistration"])
    u.struct("solver", "Solver", keep=["asg", "cdb"])
    clause.fns(u)
    clause.index(u)
    u.text(TEXT)
    u.text(ASSIGN)
    u.assume(ABS, "i32::unsigned_abs is the absolute value (contract of the standard library)")
    a = u_assign.unit()
    u.uses(a, ["AssignStack::assigned", "AssignStack::assign_at_root_level"])
    f = u.fn
    D = "cdb::db"
    DI = "impl ClauseDBIF for ClauseDB"
    f(D, "impl Clause", "evaluate", into="Clause", nloops=1, subst=[("match model [ $$x ] {", "match { let verif_v = model [ $$x ] ; verif_v } {")], spec="requires fits(model@, self.lits@), ensures r == tri(model@, self.lits@)",
      loops={0: {"it": "it", "inv": """invariant fits(model@, self.lits@), forall|j: int| 0 <= j < it.index() ==> !mtrue(model@, #[trigger] self.lits@[j]),
        falsified.is_none() ==> exists|j: int| 0 <= j < it.index() && !mfalse(model@, #[trigger] self.lits@[j]), falsified.is_some() ==> falsified == Some(false) && forall|j: int| 0 <= j < it.index() ==> mfalse(model@, #[trigger] self.lits@[j]),"""}})
    f(D, DI, "validate", into="ClauseDB", nloops=1, subst=[("ClauseId :: from ( i )", "ClauseId :: from_usize ( i )")],
      spec="""requires self.clause@.len() <= u32::MAX, forall|i: int| 1 <= i < self.clause@.len() ==> fits(model@, #[trigger] self.lits(i)),
    ensures r.is_none() ==> forall|i: int| self.judged(i, strict) ==> #[trigger] self.accepted(model@, i, strict),
        r.is_some() ==> self.judged(r.unwrap().ord() as int, strict) && !self.accepted(model@, r.unwrap().ord() as int, strict)""",
      loops={0: {"inv": """invariant verif_s0 == self.clause@.len(), 1 <= verif_i0, self.clause@.len() <= u32::MAX, verif_i0 <= verif_s0 || verif_s0 == 0, forall|i: int| 1 <= i < self.clause@.len() ==> fits(model@, #[trigger] self.lits(i)),
          forall|i: int| 1 <= i < verif_i0 && self.judged(i, strict) ==> #[trigger] self.accepted(model@, i, strict), decreases verif_s0 - verif_i0,"""}},
      ghost=[("before", "match c . evaluate", "proof { assert(c.lits@ == self.lits(i as int)); }")])
    u.enum("cdb::property", "Tusize")
    f("cdb::property", "impl PropertyDereference < Tusize , usize > for ClauseDB", "derefer", into="ClauseDB", spec="ensures k == Tusize::NumClause ==> r == self.num_clause")
    f(D, DI, "check_size", into="ClauseDB", subst=[("property :: Tusize", "Tusize")], spec="""requires self.num_clause <= u32::MAX,
    ensures r.is_ok() == (self.soft_limit == 0 || self.num_clause <= self.soft_limit), r.is_err() ==> r == Err::<bool, SolverError>(SolverError::OutOfMemory)""")
    C = "types::clause"
    f(C, clause.CI, "is_satisfied_under", into="Clause", nloops=1, subst=CDBSIG, spec="requires forall|i: int| 0 <= i < self.lits@.len() ==> asg.lit_ok(#[trigger] self.lits@[i]), ensures r == made_true(asg.values(), self.lits@)",
      loops={0: {"it": "it", "inv": "invariant forall|i: int| 0 <= i < self.lits@.len() ==> asg.lit_ok(#[trigger] self.lits@[i]), forall|i: int| 0 <= i < it.index() ==> !mtrue(asg.values(), #[trigger] self.lits@[i]),"}})
    ai = "impl AssignIF for AssignStack"
    f("assign::stack", ai, "assign_ref", into="AssignStack", spec="ensures r@ == self.values()", nloops=1,
      loops={0: {"it": "it", "inv": "invariant verif_r0@.len() == it.index(), forall|i: int| 0 <= i < verif_r0@.len() ==> #[trigger] verif_r0@[i] == self.values()[i]", "after": "proof { assert(verif_r0@ =~= self.values()); }"}})
    V = "solver::validate"
    VI = "impl ValidateIF for Solver"
    f(V, VI, "inject_assignment", into="Solver", subst=[("Lit :: from ( * $i )", "Lit :: from_i32 ( * $i )", 1)], nloops=2, spec="""
    requires old(self).asg.wf(), old(self).asg.queue_ok(), old(self).asg.num_vars == old(self).asg.nv(),
    ensures final(self).cdb == old(self).cdb,
        vec@.len() == 0 ==> r == Err::<(), SolverError>(SolverError::Inconsistent) && *final(self) == *old(self),
        vec@.len() > 0 && (exists|i: int| 0 <= i < vec@.len() && !old(self).asg.in_range(#[trigger] vec@[i])) ==> r == Err::<(), SolverError>(SolverError::InvalidLiteral) && *final(self) == *old(self),
        vec@.len() > 0 && (forall|i: int| 0 <= i < vec@.len() ==> old(self).asg.in_range(#[trigger] vec@[i])) ==> {
            &&& r.is_ok() == old(self).asg.agrees(vec@, vec@.len() as int)
            &&& r.is_err() ==> r.unwrap_err() is RootLevelConflict
            &&& r.is_ok() ==> old(self).asg.injected(&final(self).asg, vec@, vec@.len() as int)
        }""",
      loops={0: {"it": "it", "inv": "invariant self.asg.num_vars == self.asg.nv(), *self == *old(self), verif_r0 <==> exists|i: int| 0 <= i < it.index() && !self.asg.in_range(#[trigger] vec@[i]),"},
             1: {"it": "it", "inv": "invariant self.cdb == old(self).cdb, vec@.len() > 0, old(self).asg.nv() < 0x4000_0000, forall|i: int| 0 <= i < vec@.len() ==> old(self).asg.in_range(#[trigger] vec@[i]), old(self).asg.injected(&self.asg, vec@, it.index() as int), old(self).asg.agrees(vec@, it.index() as int),",
                 "top": "let ghost k = it.index() as int; let ghost a0 = self.asg; proof { assert(old(self).asg.in_range(vec@[k])); if a0.root_value(lit_of(vec@[k] as int).var() as int) == Some(!(vec@[k] > 0)) { old(self).asg.lem_conflict(&a0, vec@, k); } }",
                 "bottom": "proof { old(self).asg.lem_step(&a0, &self.asg, vec@, k); }"}}, pre="proof { assert(self.asg.heap_ok()); }")
    f(C, r"impl From < & Clause > for Vec < i32 >", "from", rename="clause_numbers", nloops=1, spec="ensures r@.len() == c.lits@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == c.lits@[i].num() as i32",
      loops={0: {"it": "it", "inv": "invariant verif_r0@.len() == it.index(), forall|i: int| 0 <= i < it.index() ==> #[trigger] verif_r0@[i] == c.lits@[i].num() as i32,"}})
    f(V, VI, "validate", into="Solver", post="", subst=[("$$x . map ( | cid | $$e )", "{ let verif_v = match $$x { Some ( cid ) => Some ( $$e ) , None => None } ; verif_v }", 1), ("Vec :: < i32 > :: from ( & self . cdb [ cid ] )", "clause_numbers ( self . cdb . at ( cid ) )", 1)],
      spec="""requires self.cdb.clause@.len() <= u32::MAX, forall|i: int| 1 <= i < self.cdb.clause@.len() ==> fits(self.asg.values(), #[trigger] self.cdb.lits(i)),
    ensures r.is_none() ==> forall|i: int| self.cdb.judged(i, true) ==> made_true(self.asg.values(), #[trigger] self.cdb.lits(i)),
        r matches Some(c) ==> exists|i: int| self.cdb.judged(i, true) && !made_true(self.asg.values(), #[trigger] self.cdb.lits(i)) && c@ =~= nums_of(self.cdb.lits(i))""",
      ghost=[("before", "verif_v }", "proof { if verif_v.is_none() { assert forall|i: int| self.cdb.judged(i, true) implies made_true(self.asg.values(), #[trigger] self.cdb.lits(i)) by { assert(self.cdb.accepted(self.asg.values(), i, true)); } } }")])
    return u
