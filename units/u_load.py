"""building a solver and loading formulas and assignments (C03, C04, C17)"""
import clause
import u_assign
import u_cdb
import u_cert
from clause import CDBSIG
from unit import Unit

RLIMIT = 100

STD = r"""
/// slice::sort on literals: sorted by ordinal (Ord of Lit is derived from its only field), the same elements
#[verifier::external_body]
pub fn verif_sort_lits(v: &mut Vec<Lit>) ensures final(v)@.len() == old(v)@.len(), sorted_ord(final(v)@), forall|l: Lit| #[trigger] has(final(v)@, l) == has(old(v)@, l) { unimplemented!() }
/// Iterator::max().unwrap_or(0) over the values of an iterator
pub fn verif_max(v: &Vec<i32>) -> (r: i32) ensures v@.len() == 0 ==> r == 0, v@.len() > 0 ==> v@.contains(r) && forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] <= r {
    if v.len() == 0 { return 0; }
    let mut r = v[0]; let mut k: usize = 1;
    while k < v.len() invariant 1 <= k <= v@.len(), v@.contains(r), forall|i: int| 0 <= i < k ==> #[trigger] v@[i] <= r, decreases v@.len() - k { if v[k] > r { r = v[k]; } k += 1; }
    r
}
#[verifier::external_body]
pub fn verif_iabs(x: i32) -> (r: i32) requires x > i32::MIN ensures r == iabs(x as int) { unimplemented!() }
/// what str::parse makes of a word: a number (however large), or not a number
pub enum Tok { Num(int), Word }
/// stand-in for std::num::{IntErrorKind, ParseIntError}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum IntErrorKind { Empty, InvalidDigit, PosOverflow, NegOverflow, Zero }
pub struct ParseIntError { pub k: IntErrorKind }
impl ParseIntError { pub fn kind(&self) -> (r: IntErrorKind) ensures r == self.k { self.k } }
#[verifier::external_body]
pub struct Word { s: String }
impl Word {
    pub uninterp spec fn tok(&self) -> Tok;
    #[verifier::external_body]
    pub fn parse_i32(&self) -> (r: Result<i32, ParseIntError>) ensures match self.tok() {
        Tok::Num(x) => if i32::MIN <= x <= i32::MAX { r == Ok::<i32, ParseIntError>(x as i32) } else { r is Err && (r->Err_0.k is PosOverflow || r->Err_0.k is NegOverflow) },
        Tok::Word => r is Err && !(r->Err_0.k is PosOverflow) && !(r->Err_0.k is NegOverflow) } { unimplemented!() }
}
/// a line of text: whether it is a comment, and its words
pub struct Line { pub comment: bool, pub toks: Seq<Tok> }
/// stand-in for String as a line buffer
#[verifier::external_body]
pub struct LineBuf { s: String }
impl LineBuf {
    pub uninterp spec fn line(&self) -> Line;
    pub uninterp spec fn blank(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: LineBuf) ensures r.blank() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).blank() { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with_c(&self) -> (r: bool) ensures r == self.line().comment { unimplemented!() }
    #[verifier::external_body]
    pub fn split_whitespace(&self) -> (r: Vec<Word>) ensures r@.len() == self.line().toks.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).tok() == self.line().toks[i] { unimplemented!() }
}
/// stand-in for BufReader<File>: the lines not yet read; reading a line succeeds
#[verifier::external_body]
pub struct LineReader { s: String }
impl LineReader {
    pub uninterp spec fn rest(&self) -> Seq<Line>;
    #[verifier::external_body]
    pub fn read_line(&mut self, buf: &mut LineBuf) -> (r: Result<usize, ()>) requires old(buf).blank(), ensures r.is_ok(), r.unwrap() == 0 <==> old(self).rest().len() == 0, r.unwrap() == 0 ==> final(self).rest() == old(self).rest(), r.unwrap() > 0 ==> final(buf).line() == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
}
"""
STD_WHY = "slice::sort sorts literals by their ordinal; a text is a sequence of lines, a line is a comment (its first character is c) or a sequence of words, a word is a number or not (read_line, starts_with, split_whitespace, parse::<i32> by their documentation; reading never fails); i32::abs"

SPEC = r"""
#[verifier::opaque]
pub open spec fn has(s: Seq<Lit>, l: Lit) -> bool { s.contains(l) }
pub proof fn lem_has(s: Seq<Lit>, k: int) requires 0 <= k < s.len() ensures has(s, s[k]) { reveal(has); }
pub proof fn lem_has_at(s: Seq<Lit>, l: Lit) -> (k: int) requires has(s, l) ensures 0 <= k < s.len(), s[k] == l { reveal(has); choose|k: int| 0 <= k < s.len() && s[k] == l }
pub proof fn lem_has_grows(a: Seq<Lit>, b: Seq<Lit>, l: Lit) requires has(a, l), a.len() <= b.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k] ensures has(b, l) { let k = lem_has_at(a, l); lem_has(b, k); assert(b[k] == a[k]); }
pub open spec fn sorted_ord(s: Seq<Lit>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).ord() <= (#[trigger] s[j]).ord() }
"""
SPEC2 = r"""
// ---- meaning
pub open spec fn sat_all(m: Val, cs: Seq<Clause>) -> bool { forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() ==> satisfies(m, cs[j].lits@) }
pub open spec fn respects(m: Val, a: AssignStack) -> bool { forall|v: int| 1 <= v <= a.nv() && (#[trigger] a.var@[v]).assign.is_some() ==> m(v) == a.var@[v].assign.unwrap() }
/// the numbers of a clause: one of them is true
pub open spec fn sat_nums(m: Val, c: Seq<i32>) -> bool { exists|i: int| 0 <= i < c.len() && #[trigger] num_true(m, c[i] as int) }
pub open spec fn num_true(m: Val, x: int) -> bool { m(iabs(x)) == (x > 0) }
pub open spec fn sat_list(m: Val, g: Seq<Seq<i32>>) -> bool { forall|k: int| 0 <= k < g.len() ==> #[trigger] sat_nums(m, g[k]) }
impl AssignStack {
    pub open spec fn in_range(&self, x: int) -> bool { x != 0 && -(self.nv() as int) <= x <= self.nv() }
}
impl AssignStack { pub open spec fn clean(&self, c: Seq<i32>) -> bool { forall|i: int| 0 <= i < c.len() ==> self.in_range(#[trigger] c[i] as int) } }
pub open spec fn lists(v: Seq<Vec<i32>>) -> Seq<Seq<i32>> { v.map(|k: int, c: Vec<i32>| c@) }
impl Solver {
    /// the assignments this solver still allows
    pub open spec fn models(&self, m: Val) -> bool { respects(m, self.asg) && sat_all(m, self.cdb.clause@) }
    /// between operations, at the top level
    pub open spec fn ready(&self) -> bool {
        &&& self.asg.wf() && self.asg.trail_lim@.len() == 0 && self.asg.num_vars == self.asg.nv()
        &&& self.cdb.wf() && self.cdb.nl() == 2 * (self.asg.nv() + 1) && self.cdb.lbd_temp@.len() == self.asg.nv() + 1 && self.asg.levels_below(self.cdb.lbd_temp@.len() as int)
        &&& self.state.cnf.num_of_variables == self.asg.nv() && self.state.target.num_of_variables == self.asg.nv()
    }
    /// there is room for n more clauses
    pub open spec fn room(&self, n: int) -> bool { self.cdb.clause@.len() + n <= 0x7fff_fffe && self.cdb.lbd_temp@[0] + n < 0x4000_0000_0000_0000 }
    pub open spec fn grown_by(&self, o: &Solver, n: int) -> bool { self.cdb.clause@.len() <= o.cdb.clause@.len() + n && self.cdb.lbd_temp@[0] <= o.cdb.lbd_temp@[0] + n && self.asg.nv() == o.asg.nv() && self.state == o.state && self.cdb.soft_limit == o.cdb.soft_limit }
    pub open spec fn reads(&self, s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> self.asg.lit_ok(#[trigger] s[i]) }
    pub open spec fn same_models(&self, o: &Solver) -> bool { forall|m: Val| #[trigger] self.models(m) <==> o.models(m) }
    /// the same solver with one clause more
    pub open spec fn plus(&self, o: &Solver, s: Seq<Lit>) -> bool { forall|m: Val| #[trigger] self.models(m) <==> o.models(m) && satisfies(m, s) }
    /// s and the clauses held contradict each other
    pub open spec fn excludes(&self, s: Seq<Lit>) -> bool { forall|m: Val| !(#[trigger] self.models(m) && satisfies(m, s)) }
}
pub open spec fn is_true(a: AssignStack, l: Lit) -> bool { a.lit_value(l) == Some(true) }
pub open spec fn is_false(a: AssignStack, l: Lit) -> bool { a.lit_value(l) == Some(false) }
/// t is s without repetitions and without literals already false; none is true, none is left with its negation
pub open spec fn shortened(a: AssignStack, s: Seq<Lit>, t: Seq<Lit>) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> has(s, #[trigger] t[k]) && a.lit_value(t[k]).is_none()
    &&& forall|k: int| 0 <= k < s.len() ==> is_false(a, #[trigger] s[k]) || has(t, s[k])
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).var() != (#[trigger] t[j]).var()
}
pub proof fn lem_shortened(a: AssignStack, s: Seq<Lit>, t: Seq<Lit>, m: Val)
    requires shortened(a, s, t), respects(m, a), forall|i: int| 0 <= i < s.len() ==> a.lit_ok(#[trigger] s[i])
    ensures satisfies(m, s) == satisfies(m, t), t.len() == 0 ==> !satisfies(m, s) {
    reveal(has);
    if satisfies(m, s) { let i = choose|i: int| 0 <= i < s.len() && vtrue(m, #[trigger] s[i]); assert(a.lit_ok(s[i])); if is_false(a, s[i]) { assert(a.var@[s[i].var() as int].assign.is_some()); } let k = choose|k: int| 0 <= k < t.len() && t[k] == s[i]; assert(vtrue(m, t[k])); }
    if satisfies(m, t) { let k = choose|k: int| 0 <= k < t.len() && vtrue(m, #[trigger] t[k]); assert(s.contains(t[k])); let i = choose|i: int| 0 <= i < s.len() && s[i] == t[k]; assert(vtrue(m, s[i])); }
}
/// a clause with a literal already true, or with a literal and its negation, says nothing
pub proof fn lem_says_nothing(a: AssignStack, s: Seq<Lit>, l: Lit, m: Val)
    requires respects(m, a), a.lit_ok(l), has(s, l), is_true(a, l) || has(s, l.neg())
    ensures satisfies(m, s) {
    reveal(has); lem_neg_props(l); let i = choose|i: int| 0 <= i < s.len() && s[i] == l;
    if is_true(a, l) { assert(a.var@[l.var() as int].assign.is_some()); assert(vtrue(m, s[i])); }
    else { let k = choose|k: int| 0 <= k < s.len() && s[k] == l.neg(); if !vtrue(m, s[i]) { assert(vtrue(m, s[k])); } }
}
/// distinct variables are at most as many as there are
pub proof fn lem_few(a: AssignStack, t: Seq<Lit>) requires forall|i: int| 0 <= i < t.len() ==> a.lit_ok(#[trigger] t[i]), forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).var() != (#[trigger] t[j]).var(), a.nv() >= 0
    ensures t.len() <= a.nv() {
    let s = Seq::new(t.len(), |i: int| t[i].var() as int);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(t[i].var() != t[j].var()); } else { assert(t[j].var() != t[i].var()); } } }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(1, a.nv() + 1);
    let r = vstd::set_lib::set_int_range(1, a.nv() + 1);
    assert(s.to_set().subset_of(r)) by { assert forall|x: int| s.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(a.lit_ok(t[i])); } }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
/// a stored clause more
pub proof fn lem_added(o: &Solver, n: &Solver, c: ClauseId, s: Seq<Lit>, t: Seq<Lit>)
    requires o.cdb.wf(), n.cdb.added(&o.cdb, c, t), n.asg == o.asg, shortened(o.asg, s, t), o.reads(s), t.len() > 0 ensures n.plus(o, s) {
    assert forall|m: Val| #[trigger] n.models(m) <==> o.models(m) && satisfies(m, s) by {
        let cs = o.cdb.clause@; let cs2 = n.cdb.clause@; let i = c.ord() as int;
        if respects(m, o.asg) { lem_shortened(o.asg, s, t, m); }
        if n.models(m) { assert(satisfies(m, cs2[i].lits@)); assert forall|j: int| 0 <= j < cs.len() && !(#[trigger] cs[j]).dead() implies satisfies(m, cs[j].lits@) by { if j != i { assert(cs2[j] == cs[j]); } } }
        if o.models(m) && satisfies(m, s) { assert forall|j: int| 0 <= j < cs2.len() && !(#[trigger] cs2[j]).dead() implies satisfies(m, cs2[j].lits@) by { if j != i { assert(cs2[j] == cs[j]); } } }
    }
}
pub proof fn lem_registered(o: &Solver, c: ClauseId, s: Seq<Lit>, t: Seq<Lit>)
    requires live(o.cdb.clause@, c), same_pair(o.cdb.lits(c), t), shortened(o.asg, s, t), o.reads(s) ensures o.plus(o, s) {
    assert forall|m: Val| #[trigger] o.models(m) implies satisfies(m, s) by { lem_shortened(o.asg, s, t, m); let u = o.cdb.lits(c); assert(satisfies(m, o.cdb.clause@[c.ord() as int].lits@)); let i = choose|i: int| 0 <= i < u.len() && vtrue(m, #[trigger] u[i]); if t[0] == u[i] { assert(vtrue(m, t[0])); } else { assert(vtrue(m, t[1])); } }
}
/// a value fixed
pub proof fn lem_fixed(o: &Solver, n: &Solver, l: Lit, s: Seq<Lit>, t: Seq<Lit>)
    requires n.cdb.clause == o.cdb.clause, o.asg.lit_ok(l), n.asg.nv() == o.asg.nv(), o.asg.value(l.var() as int).is_none(), n.asg.value(l.var() as int) == Some(l.sign()), forall|v: int| 0 <= v < o.asg.var@.len() && v != l.var() ==> #[trigger] n.asg.var@[v] == o.asg.var@[v],
        t == seq![l], shortened(o.asg, s, t), o.reads(s) ensures n.plus(o, s) {
    assert forall|m: Val| #[trigger] n.models(m) <==> o.models(m) && satisfies(m, s) by {
        let w = l.var() as int;
        if n.models(m) { assert(n.asg.var@[w].assign.is_some()); assert(m(w) == l.sign()); assert forall|v: int| 1 <= v <= o.asg.nv() && (#[trigger] o.asg.var@[v]).assign.is_some() implies m(v) == o.asg.var@[v].assign.unwrap() by { assert(n.asg.var@[v] == o.asg.var@[v]); } lem_shortened(o.asg, s, t, m); assert(vtrue(m, t[0])); }
        if o.models(m) && satisfies(m, s) { lem_shortened(o.asg, s, t, m); assert(satisfies(m, t)); assert(vtrue(m, l)); assert forall|v: int| 1 <= v <= n.asg.nv() && (#[trigger] n.asg.var@[v]).assign.is_some() implies m(v) == n.asg.var@[v].assign.unwrap() by { if v != w { assert(n.asg.var@[v] == o.asg.var@[v]); } } }
    }
}
pub proof fn lem_one_lit(a: &AssignStack, x: int) requires a.heap_ok(), a.in_range(x) ensures a.lit_ok(lit_of(x)), lit_of(x).var() == iabs(x), lit_of(x).sign() == (x > 0) { }
pub proof fn lem_nothing_read(o: &Solver, ls: Seq<Line>) ensures groups(Seq::empty()) == (Seq::<Seq<i32>>::empty(), Seq::<i32>::empty()), lits_for(Seq::empty()) == Seq::<Lit>::empty(), forall|m: Val| #[trigger] sat_list(m, Seq::empty()), Seq::empty() + words(ls) == words(ls), !strays(o.asg, Seq::empty()) {
    assert(lits_for(Seq::empty()) =~= Seq::<Lit>::empty()); assert(Seq::empty() + words(ls) =~= words(ls)); }
pub open spec fn lits_for(s: Seq<i32>) -> Seq<Lit> { s.map(|i: int, x: i32| lit_of(x as int)) }
pub proof fn lem_lits_for(a: &AssignStack, s: Seq<i32>) requires a.heap_ok(), forall|i: int| 0 <= i < s.len() ==> a.in_range(#[trigger] s[i] as int)
    ensures forall|i: int| 0 <= i < s.len() ==> a.lit_ok(#[trigger] lits_for(s)[i]), forall|m: Val| #[trigger] satisfies(m, lits_for(s)) == sat_nums(m, s) {
    let t = lits_for(s);
    assert forall|i: int| 0 <= i < s.len() implies a.lit_ok(#[trigger] t[i]) && t[i].var() == iabs(s[i] as int) && t[i].sign() == (s[i] > 0) by { assert(a.in_range(s[i] as int)); assert(lit_of(s[i] as int).wf()); }
    assert forall|m: Val| #[trigger] satisfies(m, t) == sat_nums(m, s) by {
        if satisfies(m, t) { let i = choose|i: int| 0 <= i < t.len() && vtrue(m, #[trigger] t[i]); assert(num_true(m, s[i] as int)); }
        if sat_nums(m, s) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] num_true(m, s[i] as int); assert(vtrue(m, t[i])); }
    }
}
// ---- texts
/// the words of the lines that are not comments
pub open spec fn words(ls: Seq<Line>) -> Seq<Tok> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { (if ls[0].comment { Seq::empty() } else { ls[0].toks }) + words(ls.drop_first()) } }
/// words read so far: the groups ended by a 0, and the numbers of the group begun; words that are not numbers do not count
pub open spec fn groups(w: Seq<Tok>) -> (Seq<Seq<i32>>, Seq<i32>) decreases w.len() {
    if w.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (g, c) = groups(w.drop_last());
        match w.last() { Tok::Num(x) => if x == 0 { (g.push(c), Seq::empty()) } else { (g, c.push(x as i32)) }, Tok::Word => (g, c) }
    }
}
/// the formula a text stands for: the last group need not be ended
pub open spec fn formula(w: Seq<Tok>) -> Seq<Seq<i32>> { let (g, c) = groups(w); if c.len() > 0 { g.push(c) } else { g } }
pub open spec fn sat_text(m: Val, w: Seq<Tok>) -> bool { sat_list(m, formula(w)) }
/// a number in the text names a variable that does not exist
pub open spec fn strays(a: AssignStack, w: Seq<Tok>) -> bool { exists|i: int| 0 <= i < w.len() && #[trigger] stray(a, w[i]) }
pub open spec fn stray(a: AssignStack, t: Tok) -> bool { t matches Tok::Num(x) && x != 0 && !a.in_range(x) }
pub proof fn lem_groups(w: Seq<Tok>, z: Seq<Tok>) ensures groups(w).0.len() <= groups(w + z).0.len(), forall|k: int| 0 <= k < groups(w).0.len() ==> #[trigger] groups(w + z).0[k] == groups(w).0[k], decreases z.len() {
    if z.len() > 0 { assert((w + z).drop_last() =~= w + z.drop_last()); lem_groups(w, z.drop_last()); } else { assert(w + z =~= w); }
}
/// what the beginning of a text excludes, the text excludes
pub proof fn lem_text_more(w: Seq<Tok>, z: Seq<Tok>, m: Val) requires sat_text(m, w + z) ensures sat_list(m, groups(w).0) {
    lem_groups(w, z); let g = groups(w).0; let f = formula(w + z);
    assert forall|k: int| 0 <= k < g.len() implies sat_nums(m, #[trigger] g[k]) by { assert(f[k] == g[k]); }
}
pub proof fn lem_groups_push(w: Seq<Tok>, t: Tok) ensures groups(w.push(t)) == (match t { Tok::Num(x) => if x == 0 { (groups(w).0.push(groups(w).1), Seq::empty()) } else { (groups(w).0, groups(w).1.push(x as i32)) }, Tok::Word => groups(w) }) { assert(w.push(t).drop_last() =~= w); }
pub proof fn lem_list_push(g: Seq<Seq<i32>>, c: Seq<i32>, m: Val) ensures sat_list(m, g.push(c)) == (sat_list(m, g) && sat_nums(m, c)) {
    let f = g.push(c);
    if sat_list(m, f) { assert(f[g.len() as int] == c); assert forall|k: int| 0 <= k < g.len() implies sat_nums(m, #[trigger] g[k]) by { assert(f[k] == g[k]); } }
}
"""


INV = """invariant it.iter.end == s.len(), lits@.len() == s.len(), j <= it.index() <= s.len(), a0.heap_ok(), *asg == a0, a0 == o.asg, *cdb == o.cdb, o == *old(self), o.ready(), s0 == old(lits)@, forall|l: Lit| #[trigger] has(s, l) == has(s0, l), sorted_ord(s), s.len() <= usize::MAX,
          forall|i: int| 0 <= i < s.len() ==> a0.lit_ok(#[trigger] s[i]),
          forall|k: int| it.index() <= k < s.len() ==> #[trigger] lits@[k] == s[k],
          forall|k: int| 0 <= k < j ==> has(s, #[trigger] lits@[k]) && a0.lit_value(lits@[k]).is_none() && lits@[k].wf(),
          forall|k: int| 0 <= k < it.index() ==> is_false(a0, #[trigger] s[k]) || has(lits@.take(j as int), s[k]),
          forall|k: int, p: int| 0 <= k < j && it.index() <= p < s.len() ==> (#[trigger] lits@[k]).ord() <= (#[trigger] s[p]).ord(),
          forall|k: int, p: int| 0 <= k < p < j ==> (#[trigger] lits@[k]).var() < (#[trigger] lits@[p]).var(),
          l_ == (if j == 0 { None::<Lit> } else { Some(lits@[j - 1]) }),"""
BOT = """proof { let b = lits@.take(j as int); let p0 = it.index() as int;
            assert forall|k: int| 0 <= k < it.index() + 1 implies is_false(a0, #[trigger] s[k]) || has(b, s[k]) by {
                if k < p0 { if !is_false(a0, s[k]) { lem_has_grows(b0, b, s[k]); } }
                else if !is_false(a0, li) { assert(b[j - 1] == li); lem_has(b, j - 1); } }
            assert forall|k: int, p: int| 0 <= k < p < j implies (#[trigger] lits@[k]).var() < (#[trigger] lits@[p]).var() by { if p < b0.len() { assert(b0[k] == lits@[k]); assert(b0[p] == lits@[p]); } else { assert(b0[k] == lits@[k]); lem_ord_eq(b0[k], li); if k < p - 1 { assert(b0[k].var() < b0[p - 1].var()); } } } }"""
DEAD = """proof { if l_ == Some(li.neg()) { assert(j > 0); assert(lits@[j - 1] == li.neg()); assert(has(s, lits@[j - 1])); assert(has(s0, li.neg())); }
          assert forall|m: Val| #[trigger] o.models(m) implies satisfies(m, s0) by { reveal(Solver::models); lem_says_nothing(a0, s0, li, m); } }"""
AFTER = """proof { assert(shortened(a0, s0, t)) by {
            assert forall|k: int| 0 <= k < s0.len() implies is_false(a0, #[trigger] s0[k]) || has(t, s0[k]) by { lem_has(s0, k); assert(has(s, s0[k])); let p = lem_has_at(s, s0[k]); assert(is_false(a0, s[p]) || has(t, s[p])); }
            assert forall|k: int| 0 <= k < t.len() implies has(s0, #[trigger] t[k]) && a0.lit_value(t[k]).is_none() by { assert(has(s, t[k])); } }
          assert forall|k: int| 0 <= k < t.len() implies a0.lit_ok(#[trigger] t[k]) by { assert(has(s, t[k])); let p = lem_has_at(s, t[k]); assert(a0.lit_ok(s[p])); }
          lem_few(a0, t);
          assert forall|m: Val| !(#[trigger] o.models(m) && satisfies(m, s0) && t.len() == 0) by { reveal(Solver::models); if o.models(m) { lem_shortened(a0, s0, t, m); } } }"""


def types(u):
    u_cdb.types(u)
    u.text(SPEC)
    u.assume(STD, STD_WHY)
    u.struct("types::cnf", "CNFDescription", keep=["num_of_variables", "num_of_clauses"])
    u.struct("state", "State", keep=["cnf", "target"])
    u.struct("solver", "Solver", keep=["asg", "cdb", "state"])
    u.text(SPEC2)


def unit():
    u = Unit("load")
    types(u)
    A, D = u_assign.unit(), u_cdb.unit()
    u.uses(A, ["AssignStack::assigned", "AssignStack::assign_at_root_level"])
    u.uses(D, ["ClauseDB::new_clause", "ClauseDB::certificate_add_assertion"])
    f = u.fn
    B, SI = "solver::build", "impl SatSolverIF for Solver"
    f("assign::stack", "impl VarManipulateIF for AssignStack", "reason", into="AssignStack", spec="requires vi < self.var@.len(), ensures r == self.var@[vi as int].reason")
    EQ = [("$x . add_unchecked_clause ( $$a ) == RefClause :: EmptyClause", "( match $x . add_unchecked_clause ( $$a ) { RefClause :: EmptyClause => true , _ => false } )")]
    FROM = [("Lit :: from ( * $i )", "Lit :: from_i32 ( * $i )"), ("Lit :: from ( val )", "Lit :: from_i32 ( val )")]
    REF = [("Ok ( self )", "Ok ( ( ) )"), (". map ( | _ | self )", "")]
    f(B, "impl Solver", "add_unchecked_clause", into="Solver", nloops=1, subst=[("lits . sort ( ) ;", "verif_sort_lits ( lits ) ;", 1), ("asg . assign_at_root_level ( l0 ) . map_or ( $$a , | _ | $$b )", "match asg . assign_at_root_level ( l0 ) { Ok ( _ ) => { $$b } Err ( _ ) => $$a }", 1), ("_ => cdb . new_clause ( $$a ) ,", "_ => { let verif_r = cdb . new_clause ( $$a ) ; verif_r } ,", 1)],
      spec="""requires old(self).ready(), old(self).room(1), old(self).reads(old(lits)@)
    ensures final(self).ready(), final(self).grown_by(old(self), 1),
        r is EmptyClause ==> *final(self) == *old(self) && old(self).excludes(old(lits)@),
        !(r is EmptyClause) ==> final(self).plus(old(self), old(lits)@),
        r is Dead ==> *final(self) == *old(self), old(lits)@.len() == 0 ==> r is EmptyClause,
        r matches RefClause::UnitClause(l) ==> final(self).cdb.clause == old(self).cdb.clause && final(self).asg.value(l.var() as int) == Some(l.sign()) && has(old(lits)@, l),
        r matches RefClause::RegisteredClause(c) ==> *final(self) == *old(self),
        r matches RefClause::Clause(c) ==> final(self).asg == old(self).asg && shortened(old(self).asg, old(lits)@, final(self).cdb.lits(c)) && final(self).cdb.added(&old(self).cdb, c, final(self).cdb.lits(c)),
        r is EmptyClause || r is Dead || r is UnitClause || r is RegisteredClause || r is Clause""",
      pre="hide(ClauseDB::index_ok); hide(ClauseDB::counts_ok); hide(AssignStack::wf); hide(Solver::models); proof { assert(self.asg.heap_ok()) by { reveal(AssignStack::wf); } } let ghost s0 = lits@; let ghost a0 = self.asg; let ghost o = *self;",
      ghost=[("after_stmt", "verif_sort_lits", "let ghost s = lits@; proof { assert(o.asg.heap_ok()); } proof { assert forall|i: int| 0 <= i < s.len() implies a0.lit_ok(#[trigger] s[i]) by { lem_has(s, i); let k = lem_has_at(s0, s[i]); assert(a0.lit_ok(s0[k])); } }"),
        ("after_stmt", "lits . truncate", "let ghost t = lits@; " + AFTER),
        ("before", "return RefClause :: Dead", DEAD),
        ("before", "RefClause :: UnitClause ( l0 )", "proof { assert(t =~= seq![l0]); lem_fixed(&o, self, l0, s0, t); }"),
        ("before", "verif_r }", "proof { match verif_r { RefClause::Clause(c) => lem_added(&o, self, c, s0, t), RefClause::RegisteredClause(c) => lem_registered(&o, c, s0, t), _ => { } } }"),
        ("after_stmt", "let li = lits [ i ]", "let ghost b0 = lits@.take(j as int); proof { assert(li == s[i as int]); lem_has(s, i as int); lem_neg_props(li); }"),
        ],
      loops={0: {"it": "it", "attr": "#[verifier::loop_isolation(false)]", "inv": INV, "bottom": BOT}})
    NEW_Q = "final(self).asg.trail_lim@ == old(self).asg.trail_lim@"
    f(B, SI, "add_assignment", into="Solver", sig="fn add_assignment(&mut self, val: i32) -> (r: Result<(), SolverError>)", subst=FROM + [("None => $$e . map ( | _ | self ) ,", "None => { let verif_r = $$e ; verif_r }", 1), ("=> Ok ( self )", "=> Ok ( ( ) )", 1)],
      spec="""requires old(self).ready()
    ensures !old(self).asg.in_range(val as int) ==> r == Err::<(), SolverError>(SolverError::InvalidLiteral) && *final(self) == *old(self),
        old(self).asg.in_range(val as int) ==> final(self).ready() && final(self).grown_by(old(self), 0) && (r.is_ok() || r.unwrap_err() is RootLevelConflict),
        r.is_ok() ==> final(self).asg.value(iabs(val as int)) == Some(val > 0) && forall|m: Val| #[trigger] final(self).models(m) <==> old(self).models(m) && num_true(m, val as int),
        r.is_err() ==> final(self).same_models(old(self)) && (old(self).asg.in_range(val as int) ==> forall|m: Val| !(#[trigger] old(self).models(m) && num_true(m, val as int)))""",
      pre="let ghost o = *self; proof { assert(self.asg.heap_ok()); }",
      ghost=[("after_stmt", "self . cdb . certificate_add_assertion", """proof { lem_one_lit(&o.asg, val as int); let l = lit; let s1 = seq![l]; assert(self.same_models(&o));
            assert(l.var() == iabs(val as int) && l.sign() == (val > 0));
            assert(forall|m: Val| #[trigger] o.models(m) && o.asg.value(l.var() as int).is_some() ==> m(l.var() as int) == o.asg.value(l.var() as int).unwrap()) by { assert(o.asg.var@[l.var() as int] == o.asg.var@[l.var() as int]); } }"""),
        ("before", "verif_r }", "proof { let t = seq![lit]; assert(shortened(o.asg, t, t)) by { lem_has(t, 0); } lem_fixed(&o, self, lit, t, t); assert forall|m: Val| #[trigger] self.models(m) <==> o.models(m) && num_true(m, val as int) by { assert(satisfies(m, t) == vtrue(m, t[0])) by { if vtrue(m, t[0]) { assert(satisfies(m, t)); } } } }"),
        ],
      )
    VEC = [("vec . as_ref ( )", "vec"), ("$x . as_ref ( )", "$x")]
    CHK = "invariant self.asg.num_vars == self.asg.nv(), forall|i: int| 0 <= i < it.index() ==> self.asg.in_range(#[trigger] %s@[i] as int), %s"
    MAP = "invariant self.asg.heap_ok(), verif_r0@.len() == it.index(), forall|i: int| 0 <= i < %s@.len() ==> self.asg.in_range(#[trigger] %s@[i] as int), forall|i: int| 0 <= i < it.index() ==> #[trigger] verif_r0@[i] == lits_for(%s@)[i],"
    f(B, SI, "add_clause", into="Solver", sig="fn add_clause(&mut self, vec: &[i32]) -> (r: Result<(), SolverError>)", nowhere=True, nloops=2, subst=FROM + VEC + EQ + [("Ok ( self )", "Ok ( ( ) )", 1)],
      spec="""requires old(self).ready(), old(self).room(1)
    ensures (exists|i: int| 0 <= i < vec@.len() && !old(self).asg.in_range(#[trigger] vec@[i] as int)) ==> r == Err::<(), SolverError>(SolverError::InvalidLiteral),
        (forall|i: int| 0 <= i < vec@.len() ==> old(self).asg.in_range(#[trigger] vec@[i] as int)) ==> r.is_ok() || r == Err::<(), SolverError>(SolverError::EmptyClause),
        r.is_err() ==> *final(self) == *old(self),
        r == Err::<(), SolverError>(SolverError::EmptyClause) ==> forall|m: Val| !(#[trigger] old(self).models(m) && sat_nums(m, vec@)),
        r.is_ok() ==> final(self).ready() && final(self).grown_by(old(self), 1) && forall|m: Val| #[trigger] final(self).models(m) <==> old(self).models(m) && sat_nums(m, vec@)""",
      pre="hide(Solver::models); hide(ClauseDB::wf); hide(AssignStack::wf); let ghost o = *self; proof { assert(self.asg.heap_ok()) by { reveal(AssignStack::wf); } }",
      loops={0: {"it": "it", "inv": CHK % ("vec", "*self == o, o == *old(self),")}, 1: {"it": "it", "inv": MAP % ("vec", "vec", "vec") + " *self == o, o == *old(self),"}},
      ghost=[("before", "if clause . is_empty ( )", "proof { assert(clause@ =~= lits_for(vec@)); lem_lits_for(&o.asg, vec@); assert(o.reads(clause@)); }")])
    why = "progress report: prints, and changes only counters and records not modelled here"
    SHOW = [("this . state . progress_header ( ) ;", "", why), ("this . state . progress ( & this . asg , & this . cdb ) ;", "", why), ("this . state . flush ( $x ) ;", "", why)]
    HIDE = "hide(Solver::models); hide(ClauseDB::wf); hide(AssignStack::wf); "
    THIS = [("self", "this")]
    f(B, "impl Solver", "inject_from_vec", into="Solver", sig="fn inject_from_vec(init: Solver, v: &[Vec<i32>]) -> (r: Result<Solver, SolverError>)", nowhere=True, nloops=3, subst=THIS + FROM + VEC + EQ, drop=SHOW,
      spec="""requires init.ready(), init.room(v@.len() as int)
    ensures r matches Ok(s) ==> s.ready() && (forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@.len() > 0) && s.asg.nv() == init.asg.nv() && s.state == init.state && s.cdb.soft_limit == init.cdb.soft_limit && (forall|k: int| 0 <= k < v@.len() ==> #[trigger] init.asg.clean(v@[k]@)) && forall|m: Val| #[trigger] s.models(m) <==> init.models(m) && sat_list(m, lists(v@)),
        r matches Err(e) ==> e is InvalidLiteral && (exists|k: int| 0 <= k < v@.len() && !#[trigger] init.asg.clean(v@[k]@)) || e is EmptyClause && forall|m: Val| !(#[trigger] init.models(m) && sat_list(m, lists(v@)))""",
      pre=HIDE + "let mut this = init; let ghost o = init; proof { assert(this.asg.heap_ok()) by { reveal(AssignStack::wf); } assert(forall|m: Val| #[trigger] sat_list(m, lists(v@).take(0))); }",
      loops={0: {"it": "to", "inv": """invariant o == init, this.ready(), this.asg.heap_ok(), o.room(v@.len() as int), this.grown_by(&o, to.index() as int), forall|k: int| 0 <= k < to.index() ==> #[trigger] o.asg.clean(v@[k]@), forall|k: int| 0 <= k < to.index() ==> (#[trigger] v@[k])@.len() > 0,
              forall|m: Val| #[trigger] this.models(m) <==> o.models(m) && sat_list(m, lists(v@).take(to.index() as int)),""",
                 "top": "let ghost k0 = to.index() as int; let ghost b = this; assert(b.grown_by(&o, k0)); proof { assert(*ints == v@[k0]); assert(this.room(1)); }",
                 "bottom": "proof { assert(this.asg.heap_ok()) by { reveal(AssignStack::wf); } assert(this.grown_by(&b, 1)); assert(this.grown_by(&o, k0 + 1)); assert(lists(v@).take(k0 + 1) =~= lists(v@).take(k0).push(v@[k0]@)); assert forall|m: Val| #[trigger] this.models(m) <==> o.models(m) && sat_list(m, lists(v@).take(k0 + 1)) by { lem_list_push(lists(v@).take(k0), v@[k0]@, m); } }",
                 "after": "proof { assert(lists(v@).take(v@.len() as int) =~= lists(v@)); }"},
             1: {"it": "it", "inv": CHK.replace("self", "this") % ("ints", "this == b, *ints == v@[k0], 0 <= k0 < v@.len(), b.asg.nv() == o.asg.nv(), o == init,"), "after": "proof { assert(this.asg.clean(ints@)); }"}, 2: {"it": "iu", "inv": (MAP.replace("self", "this") % ("ints", "ints", "ints")).replace("it.", "iu.") + " this == b,"}},
      ghost=[("before", "if v . is_empty ( )", "proof { assert(lits@ =~= lits_for(ints@)); lem_lits_for(&this.asg, ints@); assert(this.reads(lits@)); }"),
             ("before", "return Err ( SolverError :: InvalidLiteral )", "proof { assert(!this.asg.in_range(ints@[it.index() as int] as int)); assert(!this.asg.clean(ints@)); assert(!o.asg.clean(v@[k0]@)); }"),
             ("before", "return Err ( SolverError :: EmptyClause )", "proof { assert forall|m: Val| !(#[trigger] o.models(m) && sat_list(m, lists(v@))) by { if o.models(m) && sat_list(m, lists(v@)) { assert(sat_nums(m, lists(v@)[k0])); assert(sat_list(m, lists(v@).take(k0))) by { assert forall|k: int| 0 <= k < k0 implies sat_nums(m, #[trigger] lists(v@).take(k0)[k]) by { assert(sat_nums(m, lists(v@)[k])); } } assert(b.models(m)); } } }", 1)])
    TXT = [("Ok ( _ ) if buf . starts_with ( 'c' ) => continue ,", "Ok ( _ ) if buf . starts_with ( 'c' ) => { continue ; }", 1), ("for s in buf . split_whitespace ( )", "let verif_w = buf . split_whitespace ( ) ; for s in verif_w . iter ( )", 1), ("String :: new ( )", "LineBuf :: new ( )"), ("buf . starts_with ( 'c' )", "buf . starts_with_c ( )"), ("s . parse :: < i32 > ( )", "s . parse_i32 ( )"), ("this . add_unchecked_clause ( & mut v ) == RefClause :: EmptyClause", "( match this . add_unchecked_clause ( & mut v ) { RefClause :: EmptyClause => true , _ => false } )")]
    LOADED = """o.asg.heap_ok(), this.ready(), this.asg.heap_ok(), o.asg.nv() == this.asg.nv(), o == init, ls == reader_in.rest(), o.room(words(ls).len() as int + 1), this.grown_by(&o, groups(w).0.len() as int), groups(w).0.len() <= w.len(), v@ == lits_for(groups(w).1), o.asg.clean(groups(w).1), !strays(o.asg, w),
              forall|m: Val| #[trigger] this.models(m) <==> o.models(m) && sat_list(m, groups(w).0),"""
    f(B, "impl Solver", "inject", into="Solver", sig="fn inject(init: Solver, reader_in: LineReader) -> (r: Result<Solver, SolverError>)", nowhere=True, nloops=2, subst=THIS + FROM + TXT, drop=SHOW,
      spec="""requires init.ready(), init.room(words(reader_in.rest()).len() as int + 1)
    ensures r matches Ok(s) ==> s.ready() && s.asg.nv() == init.asg.nv() && s.state == init.state && s.cdb.soft_limit == init.cdb.soft_limit && !strays(init.asg, words(reader_in.rest())) && forall|m: Val| #[trigger] s.models(m) <==> init.models(m) && sat_text(m, words(reader_in.rest())),
        r matches Err(e) ==> e is InvalidLiteral && strays(init.asg, words(reader_in.rest())) || e is EmptyClause && forall|m: Val| !(#[trigger] init.models(m) && sat_text(m, words(reader_in.rest())))""",
      pre=HIDE + "let mut this = init; proof { assert(init.asg.heap_ok()) by { reveal(AssignStack::wf); } } let mut reader = reader_in; let ghost o = init; let ghost ls = reader_in.rest(); let ghost mut w = Seq::<Tok>::empty(); proof { assert(this.asg.heap_ok()) by { reveal(AssignStack::wf); } lem_nothing_read(&o, ls); }",
      loops={0: {"inv": "invariant " + LOADED + " w + words(reader.rest()) == words(ls), ensures reader.rest().len() == 0, decreases reader.rest().len(),",
                 "top": "let ghost r0 = reader.rest();"},
             1: {"it": "it", "inv": "invariant " + LOADED + " w == w0 + toks.take(it.index() as int), w0 + toks + words(reader.rest()) == words(ls), verif_w@.len() == toks.len(), forall|k: int| 0 <= k < toks.len() ==> (#[trigger] verif_w@[k]).tok() == toks[k],",
                 "top": """let ghost k = it.index() as int; let ghost b = this; let ghost v0 = v@; let ghost t = toks[k]; let ghost c0 = groups(w).1; let ghost g0 = groups(w).0; let ghost w2 = w.push(t); proof {
                     lem_groups_push(w, t); assert(w2 =~= w0 + toks.take(k + 1)); assert(w2 + (toks.skip(k + 1) + words(reader.rest())) =~= words(ls)); assert(words(ls)[w.len() as int] == t); lem_lits_for(&o.asg, c0); assert(this.reads(v0)); assert(this.room(1)); assert((*s).tok() == t); }""",
                 "bottom": """proof { w = w2; assert(this.asg.heap_ok()) by { reveal(AssignStack::wf); } assert(this.grown_by(&o, groups(w).0.len() as int)); assert(v@ =~= lits_for(groups(w).1));
                     assert forall|m: Val| #[trigger] this.models(m) <==> o.models(m) && sat_list(m, groups(w).0) by { lem_list_push(g0, c0, m); assert(b.models(m) <==> o.models(m) && sat_list(m, g0)); if t == Tok::Num(0) { assert(this.plus(&b, v0)); assert(groups(w).0 == g0.push(c0)); } else { assert(this == b); assert(groups(w).0 == g0); } } }""",
                 "after": "proof { assert(toks.take(toks.len() as int) =~= toks); }"}},
      ghost=[("before", "continue ;", "proof { assert(words(r0) =~= words(reader.rest())); }"),
             ("after", "let verif_w = buf . split_whitespace ( ) ;", "let ghost toks = buf.line().toks; let ghost w0 = w; proof { assert(w0 + toks + words(reader.rest()) =~= w0 + words(r0)); assert(w0 =~= w0 + toks.take(0)); }"),
             ("before", "return Err ( SolverError :: EmptyClause )", """proof { assert forall|m: Val| !(#[trigger] o.models(m) && sat_text(m, words(ls))) by { if o.models(m) && sat_text(m, words(ls)) { lem_text_more(w2, toks.skip(k + 1) + words(reader.rest()), m); lem_list_push(groups(w).0, c0, m); assert(b.models(m)); } } }"""),
             ("before", "return Err ( SolverError :: InvalidLiteral )", "proof { assert(stray(o.asg, words(ls)[w.len() as int])); }", 0),
             ("before", "return Err ( SolverError :: InvalidLiteral )", "proof { assert(stray(o.asg, words(ls)[w.len() as int])); }", 1),
             ("before", "if ! v . is_empty ( )", "let ghost b1 = this; let ghost v1 = v@; let ghost (g1, c1) = groups(w); proof { assert(w =~= words(ls)); lem_lits_for(&o.asg, c1); assert(this.reads(v1)); assert(this.room(1)); }"),
             ("before", "return Err ( SolverError :: EmptyClause )", """proof { assert forall|m: Val| !(#[trigger] o.models(m) && sat_text(m, words(ls))) by { if o.models(m) && sat_text(m, words(ls)) { lem_list_push(g1, c1, m); assert(b1.models(m)); } } }""", 1),
             ("before", "Ok ( this )", "proof { assert forall|m: Val| #[trigger] this.models(m) <==> o.models(m) && sat_text(m, words(ls)) by { lem_list_push(g1, c1, m); } }"),
             ])
    return u
