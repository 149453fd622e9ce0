"""clauses, the parts of the database and of the assignment that clause-level functions read"""
import u_lit
from prelude import SWAP, SWAP_WHY, UNREACH, flags

TEXT = r"""
pub open spec fn contains_var(s: Seq<Lit>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).var() == v }
/// the literals of a stored clause: legal, no literal twice, no literal with its negation
pub open spec fn clause_ok(s: Seq<Lit>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).var() != (#[trigger] s[j]).var()
}
/// an assignment of truth values to all variables, and what it makes of literals and clauses
pub type Val = spec_fn(int) -> bool;
pub open spec fn vtrue(m: Val, l: Lit) -> bool { m(l.var() as int) == l.sign() }
pub open spec fn satisfies(m: Val, s: Seq<Lit>) -> bool { exists|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]) }
pub proof fn lem_neg_props(l: Lit) requires l.wf() ensures l.neg().wf(), l.neg().var() == l.var(), l.neg().sign() != l.sign(), l.neg().neg() == l {
    let a = l.ordinal.v;
    assert(a >= 2 && a < 0x8000_0000 && a % 2 == 1 ==> (a - 1) as u32 / 2 == a / 2 && ((a - 1) as u32) % 2 == 0 && a >= 3) by (bit_vector);
    assert(a >= 2 && a < 0x8000_0000 && a % 2 == 0 ==> (a + 1) as u32 / 2 == a / 2 && ((a + 1) as u32) % 2 == 1 && a + 1 < 0x8000_0000) by (bit_vector);
}
/// two literals of one variable are equal or each other's negation
pub proof fn lem_same_var(l: Lit, k: Lit) requires l.wf(), k.wf(), l.var() == k.var() ensures k == l || k == l.neg(), (k == l) == (k.sign() == l.sign()) {
    let a = l.ordinal.v; let b = k.ordinal.v;
    assert(a / 2 == b / 2 && a >= 2 && b >= 2 ==> (a == b || (a % 2 == 0 && b == a + 1) || (a % 2 == 1 && b == a - 1))) by (bit_vector);
}
"""
CLAUSE = r"""
impl Clause {
    pub open spec fn dead(&self) -> bool { self.lits@.len() == 0 }
    pub open spec fn ok(&self) -> bool { clause_ok(self.lits@) }
}
"""


def types(u, clause_keep=None, base=True):
    if base:
        u_lit.base(u)
        u.assume(SWAP, SWAP_WHY)
        u.text(UNREACH)
    u.text(TEXT)
    flags(u, "FlagClause")
    u.struct("types::clause", "Clause", keep=clause_keep)
    u.text(CLAUSE)


CONTAINS = r"""
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x);
"""
C = "types::clause"
CI = "impl ClauseIF for Clause"


def fns(u):
    f = u.fn
    u.assume(CONTAINS, "<[Lit]>::contains tells membership (contract of the standard library)")
    f(C, CI, "is_empty", into="Clause", spec="ensures r == self.dead()")
    f(C, CI, "is_dead", into="Clause", spec="ensures r == self.dead()")
    f(C, CI, "lit0", into="Clause", spec="requires self.lits@.len() > 0, ensures r == self.lits@[0]")
    f(C, CI, "lit1", into="Clause", spec="requires self.lits@.len() > 1, ensures r == self.lits@[1]")
    f(C, CI, "contains", into="Clause", spec="ensures r == self.lits@.contains(lit)")
    f(C, CI, "len", into="Clause", spec="ensures r == self.lits@.len()")
    ft = [("Self :: FlagType", "FlagClause")]
    fi = "impl FlagIF for Clause"
    names = (("LEARNT", "learnt"), ("USED", "used"), ("ENQUEUED", "enqueued"), ("OCCUR_LINKED", "occur_linked"))
    f(C, fi, "is", into="Clause", subst=ft, spec="ensures " + ", ".join(f"flag == FlagClause::{a} ==> r == self.flags.{b}" for a, b in names))
    for nm, v in (("turn_off", "false"), ("turn_on", "true")):
        f(C, fi, nm, into="Clause", subst=ft, spec="ensures " + ", ".join(
            f"flag == FlagClause::{a} ==> *final(self) == (Clause {{ flags: FlagClause {{ {b}: {v}, ..old(self).flags }}, ..*old(self) }})" for a, b in names))


def index(u):
    """Index/IndexMut<ClauseId> of the database, as functions"""
    f = u.fn
    D = "cdb::db"
    f(D, "impl Index < ClauseId > for ClauseDB", "index", into="ClauseDB", rename="at", spec="requires cid.ord() < self.clause@.len(), ensures *r == self.clause@[cid.ord() as int]")
    f(D, "impl Index < & ClauseId > for ClauseDB", "index", into="ClauseDB", rename="at_ref", spec="requires cid.ord() < self.clause@.len(), ensures *r == self.clause@[cid.ord() as int]")


AT = [("cdb [ $$a ]", "( * cdb . at ( $$a ) )")]
CDBSIG = [("cdb : & mut impl ClauseDBIF", "cdb : & mut ClauseDB"), ("cdb : & impl ClauseDBIF", "cdb : & ClauseDB"), ("asg : & mut impl AssignIF", "asg : & mut AssignStack"), ("asg : & impl AssignIF", "asg : & AssignStack")]
