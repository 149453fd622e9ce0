import u_lit
from prelude import SWAP, SWAP_WHY, UNREACH, flags
from unit import Unit

RLIMIT = 60

HEAP = r"""
// ---------------- the decision queue: heap[1..] and idxs[1..] are inverse permutations
impl VarIdHeap {
    pub open spec fn size(&self) -> int { self.idxs@.len() as int }
    pub open spec fn alive(&self) -> int { self.idxs@[0] as int }
    pub open spec fn shape(&self) -> bool {
        &&& self.heap@.len() == self.idxs@.len()
        &&& 1 <= self.size() <= 0x4000_0000
        &&& self.alive() < self.size()
    }
    pub open spec fn inverse_at(&self, p: int) -> bool { 1 <= self.heap@[p] < self.size() && self.idxs@[self.heap@[p] as int] == p }
    pub open spec fn indexed(&self, v: int) -> bool { 1 <= self.idxs@[v] < self.size() && self.heap@[self.idxs@[v] as int] == v }
    pub open spec fn wf(&self) -> bool {
        &&& self.shape()
        &&& self.heap@[0] == 0
        &&& forall|p: int| 1 <= p < self.size() ==> 1 <= #[trigger] self.heap@[p] < self.size() && self.idxs@[self.heap@[p] as int] == p
        &&& forall|v: int| 1 <= v < self.size() ==> 1 <= #[trigger] self.idxs@[v] < self.size() && self.heap@[self.idxs@[v] as int] == v
    }
    /// is v in the queue?
    pub open spec fn has(&self, v: int) -> bool { 1 <= v < self.size() && self.idxs@[v] <= self.idxs@[0] }
    /// the invariant while vq is being moved: slot q is free
    pub open spec fn hole(&self, q: int, vq: int) -> bool {
        &&& self.shape()
        &&& self.heap@[0] == 0
        &&& 1 <= q < self.size() && 1 <= vq < self.size()
        &&& forall|p: int| 1 <= p < self.size() && p != q ==> 1 <= #[trigger] self.heap@[p] < self.size() && self.heap@[p] != vq && self.idxs@[self.heap@[p] as int] == p
        &&& forall|v: int| 1 <= v < self.size() && v != vq ==> 1 <= #[trigger] self.idxs@[v] < self.size() && self.idxs@[v] != q && self.heap@[self.idxs@[v] as int] == v
    }
    pub open spec fn same_members(&self, o: &VarIdHeap) -> bool {
        self.size() == o.size() && self.alive() == o.alive() && forall|v: int| #![trigger self.has(v)] #![trigger o.has(v)] self.has(v) == o.has(v)
    }
}
"""

ASG = r"""
impl AssignStack {
    pub open spec fn nv(&self) -> int { self.var@.len() - 1 }
    pub open spec fn lit_ok(&self, l: Lit) -> bool { l.wf() && 1 <= l.var() <= self.nv() }
    pub open spec fn value(&self, v: int) -> Option<bool> { self.var@[v].assign }
    pub open spec fn gone(&self, v: int) -> bool { self.var@[v].flags.eliminated }
    pub open spec fn on_trail(&self, v: int) -> bool { exists|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == v }
    pub open spec fn saved(&self, v: int) -> bool { exists|i: int| 0 <= i < self.trail_saved@.len() && #[trigger] self.trail_saved@[i].var() == v }
    pub open spec fn heap_ok(&self) -> bool { self.var_order.wf() && self.var_order.size() == self.var@.len() && self.var@.len() < 0x4000_0000 }
    pub open spec fn saved_ok(&self) -> bool { forall|i: int| 0 <= i < self.trail_saved@.len() ==> self.lit_ok(#[trigger] self.trail_saved@[i]) && self.var@[self.trail_saved@[i].var() as int].reason_saved != AssignReason::None }
    /// the trail lists assigned variables, each once, with its value and a reason; what is assigned and
    /// not listed was fixed at level 0 (clear_asserted_literals empties the trail there)
    pub open spec fn trail_ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.trail@.len() ==> self.lit_ok(#[trigger] self.trail@[i]) && self.value(self.trail@[i].var() as int) == Some(self.trail@[i].sign()) && self.var@[self.trail@[i].var() as int].reason != AssignReason::None
        &&& forall|i: int, j: int| 0 <= i < j < self.trail@.len() ==> (#[trigger] self.trail@[i]).var() != (#[trigger] self.trail@[j]).var()
        &&& forall|v: int| 1 <= v <= self.nv() && (#[trigger] self.var@[v]).assign.is_some() && !self.on_trail(v) ==> self.var@[v].level == 0
    }
    /// the recorded levels agree with the level boundaries
    pub open spec fn lev_at(&self, i: int) -> bool {
        let l = self.var@[self.trail@[i].var() as int].level as int;
        l <= self.trail_lim@.len() && (l > 0 ==> self.trail_lim@[l - 1] <= i) && (l < self.trail_lim@.len() ==> i < self.trail_lim@[l])
    }
    pub open spec fn lev_ok(&self) -> bool { forall|i: int| 0 <= i < self.trail@.len() ==> #[trigger] self.lev_at(i) }
    pub open spec fn lim_ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.trail_lim@.len() ==> #[trigger] self.trail_lim@[i] < self.trail@.len()
        &&& forall|i: int, j: int| 0 <= i < j < self.trail_lim@.len() ==> #[trigger] self.trail_lim@[i] < #[trigger] self.trail_lim@[j]
        &&& self.q_head <= self.trail@.len()
        &&& self.root_level == 0
    }
    pub open spec fn wf(&self) -> bool { self.heap_ok() && self.saved_ok() && self.trail_ok() && self.lev_ok() && self.lim_ok() }
    /// C11: no open variable is lost
    pub open spec fn open_var(&self, v: int) -> bool { 1 <= v <= self.nv() && self.value(v).is_none() && !self.gone(v) }
    pub open spec fn kept(&self, v: int) -> bool { self.var_order.has(v) || self.saved(v) }
    pub open spec fn queue_ok(&self) -> bool { forall|v: int| #[trigger] self.open_var(v) ==> self.kept(v) }
    /// nothing but the queue (and the saved trail) differs
    pub open spec fn same_but_queue(&self, o: &AssignStack) -> bool {
        *self == (AssignStack { var_order: self.var_order, trail_saved: self.trail_saved, ..*o })
    }
    /// variable v of self and o differ at most in activity, saved reason and the USED flag
    pub open spec fn same_var(&self, o: &AssignStack, v: int) -> bool {
        &&& self.var@[v].assign == o.var@[v].assign && self.var@[v].level == o.var@[v].level && self.var@[v].reason == o.var@[v].reason
        &&& self.var@[v].flags.eliminated == o.var@[v].flags.eliminated && self.var@[v].flags.phase == o.var@[v].flags.phase
    }
    pub open spec fn same_vars(&self, o: &AssignStack) -> bool {
        self.var@.len() == o.var@.len() && forall|v: int| 0 <= v < self.var@.len() ==> #[trigger] self.same_var(o, v)
    }
    /// everything about the assignment is as in o (queue, saved trail, activity aside)
    pub open spec fn same_assignment(&self, o: &AssignStack) -> bool {
        &&& self.trail@ == o.trail@ && self.trail_lim@ == o.trail_lim@ && self.q_head == o.q_head && self.root_level == o.root_level
        &&& self.same_vars(o)
        &&& self.num_vars == o.num_vars && self.num_eliminated_vars == o.num_eliminated_vars && self.eliminated == o.eliminated
    }
}
/// every member of o's queue or saved trail is still in one of them
pub open spec fn none_lost(a: &AssignStack, o: &AssignStack) -> bool { forall|v: int| #[trigger] o.kept(v) ==> a.kept(v) }
"""

ASSUMED = r"""
impl AssignStack {
    #[verifier::external_body]
    fn save_best_phases(&mut self)
        ensures *final(self) == (AssignStack { build_best_at: final(self).build_best_at, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    fn check_best_phase(&mut self, vi: VarId) -> bool
        ensures *final(self) == (AssignStack { num_best_assign: final(self).num_best_assign, ..*old(self) }) { unimplemented!() }
}
"""
CDBVIEW = r"""
/// what reuse_saved_trail reads of the clause database: a rank and a first literal, both arbitrary here
#[verifier::external_body] pub struct ClauseView { d: u8 }
impl ClauseView {
    #[verifier::external_body] pub fn rank_of(&self, c: ClauseId) -> u16 { unimplemented!() }
    #[verifier::external_body] pub fn lit0_of(&self, c: ClauseId) -> Lit { unimplemented!() }
}
"""
RETAIN = r"""
#[verifier::external_body]
pub fn verif_retain(v: &mut Vec<Lit>, vi: VarId)
    ensures (forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).var() != vi) ==> final(v)@ == old(v)@ { unimplemented!() }
"""
LEMMAS = r"""
pub open spec fn part(t: Seq<Lit>, lo: int, hi: int, v: int) -> bool { exists|j: int| lo <= j < hi && (#[trigger] t[j]).var() == v }
pub open spec fn cleared(a: &Var, b: &Var) -> bool {
    a.assign.is_none() && a.reason == AssignReason::None && b.assign.is_some() && a.flags.phase == b.assign.unwrap() && a.flags.eliminated == b.flags.eliminated && a.level == b.level && a.flags.ca_seen == b.flags.ca_seen
}
pub open spec fn cleared0(a: &Var, b: &Var) -> bool { a.assign.is_none() && a.reason == AssignReason::None && b.assign.is_some() }
impl AssignStack {
    pub open spec fn lit_value(&self, l: Lit) -> Option<bool> { match self.value(l.var() as int) { Some(b) => Some(b == l.sign()), None => None } }
    /// no mark of the conflict analysis and no level differs
    pub open spec fn same_marks(&self, o: &AssignStack) -> bool { self.var@.len() == o.var@.len() && forall|v: int| #![trigger self.var@[v]] 0 <= v < self.var@.len() ==> self.var@[v].flags.ca_seen == o.var@[v].flags.ca_seen && self.var@[v].level == o.var@[v].level }
    /// C10: the saved trail is what o had on its levels above lv, the last one aside, backwards and with its reasons
    pub open spec fn saved_upto(o: &AssignStack, lv: int) -> int { let n = o.trail_lim@.len(); let lim = o.trail_lim@[lv] as int; if n >= 2 && o.trail_lim@[n - 2] > lim { o.trail_lim@[n - 2] as int } else { lim } }
    pub open spec fn saved_from(&self, o: &AssignStack, lv: int) -> bool {
        let lim = o.trail_lim@[lv] as int; let hi = Self::saved_upto(o, lv);
        self.trail_saved@.len() == hi - lim && forall|j: int| #![trigger self.trail_saved@[j]] 0 <= j < hi - lim ==> self.trail_saved@[j] == o.trail@[hi - 1 - j] && self.var@[o.trail@[hi - 1 - j].var() as int].reason_saved == o.var@[o.trail@[hi - 1 - j].var() as int].reason
    }
    /// all that cancel_until does
    pub open spec fn cancels(&self, o: &AssignStack, lv: int) -> bool {
        if lv >= self.trail_lim@.len() { *o == *self } else { self.cancelled_to(o, lv) && o.saved_from(self, lv) && o.same_marks(self) }
    }
    /// all that assign_at_root_level does at level 0
    pub open spec fn asserts(&self, o: &AssignStack, l: Lit) -> bool {
        &&& o.trail_lim@ == self.trail_lim@
        &&& self.value(l.var() as int).is_none() ==> self.assigned_to(o, l) && o.var@[l.var() as int].reason_saved == self.var@[l.var() as int].reason_saved
        &&& self.value(l.var() as int).is_some() ==> o.var@ == self.var@ && *o == (AssignStack { var: o.var, ..*self })
    }
    /// C09: o is self with everything above level lv taken back
    pub open spec fn cancelled_to(&self, o: &AssignStack, lv: int) -> bool {
        let lim = self.trail_lim@[lv] as int;
        &&& o.trail@ == self.trail@.take(lim) && o.trail_lim@ == self.trail_lim@.take(lv)
        &&& o.q_head == (if self.q_head < lim { self.q_head as int } else { lim })
        &&& o.root_level == self.root_level && o.num_vars == self.num_vars && o.num_eliminated_vars == self.num_eliminated_vars && o.eliminated == self.eliminated
        &&& o.var@.len() == self.var@.len()
        &&& forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() ==> o.gone(v) == self.gone(v)
        &&& forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() && !(self.value(v).is_some() && self.var@[v].level > lv) ==> o.same_var(self, v)
        &&& forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() && self.value(v).is_some() && self.var@[v].level > lv ==> cleared(&o.var@[v], &self.var@[v])
    }
    pub proof fn lem_levels(&self) requires self.wf() ensures self.trail@.len() <= self.nv(), self.trail_lim@.len() <= self.nv() {
        let s = self.trail@.map(|i: int, l: Lit| l.var() as int);
        assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(self.trail@[i].var() != self.trail@[j].var()); } else { assert(self.trail@[j].var() != self.trail@[i].var()); } } }
        let full = vstd::set_lib::set_int_range(1, self.nv() + 1);
        vstd::set_lib::lemma_int_range(1, self.nv() + 1);
        s.unique_seq_to_set();
        assert(s.to_set().subset_of(full)) by { assert forall|x: int| s.to_set().contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(self.lit_ok(self.trail@[i])); } }
        vstd::set_lib::lemma_len_subset(s.to_set(), full);
        self.lem_lims(self.trail_lim@.len() as int);
    }
    proof fn lem_lims(&self, k: int) requires self.wf(), 0 <= k <= self.trail_lim@.len() ensures k <= self.trail@.len(), k > 0 ==> k - 1 <= self.trail_lim@[k - 1] decreases k {
        if k > 0 { self.lem_lims(k - 1); if k > 1 { assert(self.trail_lim@[k - 2] < self.trail_lim@[k - 1]); } }
    }
    /// only the variable v (unassigned) and the queue entry of v changed
    pub proof fn lem_frame(&self, o: &AssignStack, v: int)
        requires self.wf(), 1 <= v <= self.nv(), self.value(v).is_none(), o.value(v).is_none(), o.heap_ok(), o.var@.len() == self.var@.len(), o.var@[v].reason_saved == self.var@[v].reason_saved,
            o.trail@ == self.trail@, o.trail_lim@ == self.trail_lim@, o.q_head == self.q_head, o.root_level == self.root_level, o.trail_saved == self.trail_saved,
            forall|w: int| 0 <= w < o.var@.len() && w != v ==> #[trigger] o.var@[w] == self.var@[w],
        ensures o.wf() {
        assert forall|i: int| 0 <= i < o.trail@.len() implies #[trigger] o.lev_at(i) by { assert(self.lev_at(i)); assert(self.trail@[i].var() != v); }
        assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); }
        assert forall|i: int| 0 <= i < o.trail@.len() implies o.lit_ok(#[trigger] o.trail@[i]) && o.value(o.trail@[i].var() as int) == Some(o.trail@[i].sign()) && o.var@[o.trail@[i].var() as int].reason != AssignReason::None by { assert(self.lit_ok(self.trail@[i])); }
        assert forall|w: int| 1 <= w <= o.nv() && (#[trigger] o.var@[w]).assign.is_some() && !o.on_trail(w) implies o.var@[w].level == 0 by { assert(!self.on_trail(w)) by { if self.on_trail(w) { let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == w; assert(o.trail@[i].var() == w); } } }
    }
    /// C09: o is self with l assigned at its current level
    pub open spec fn assigned_to(&self, o: &AssignStack, l: Lit) -> bool {
        &&& o.trail@ == self.trail@.push(l)
        &&& o.value(l.var() as int) == Some(l.sign()) && o.var@[l.var() as int].level == o.trail_lim@.len()
        &&& o.gone(l.var() as int) == self.gone(l.var() as int) && o.var@[l.var() as int].flags.ca_seen == self.var@[l.var() as int].flags.ca_seen
        &&& o.q_head == self.q_head && o.root_level == self.root_level && o.trail_saved == self.trail_saved && o.num_vars == self.num_vars && o.eliminated == self.eliminated
        &&& o.var@.len() == self.var@.len()
        &&& forall|w: int| 0 <= w < o.var@.len() && w != l.var() ==> #[trigger] o.var@[w] == self.var@[w]
    }
    pub proof fn lem_assign(&self, o: &AssignStack, l: Lit)
        requires self.wf(), self.lit_ok(l), self.value(l.var() as int).is_none(), self.assigned_to(o, l), o.heap_ok(),
            o.var@[l.var() as int].reason != AssignReason::None, o.var@[l.var() as int].reason_saved == self.var@[l.var() as int].reason_saved,
            o.trail_lim@ == self.trail_lim@ || o.trail_lim@ == self.trail_lim@.push(self.trail@.len() as usize),
        ensures o.wf() {
        let n = self.trail@.len() as int;
        self.lem_levels();
        assert forall|i: int| 0 <= i < o.trail@.len() implies #[trigger] o.lev_at(i) && o.lit_ok(o.trail@[i]) && o.value(o.trail@[i].var() as int) == Some(o.trail@[i].sign()) && o.var@[o.trail@[i].var() as int].reason != AssignReason::None && (i < n ==> o.trail@[i] == self.trail@[i] && o.trail@[i].var() != l.var()) by {
            if i < n { assert(o.trail@[i] == self.trail@[i]); assert(self.lit_ok(self.trail@[i])); assert(self.lev_at(i)); assert(self.trail@[i].var() != l.var()); assert(o.var@[self.trail@[i].var() as int] == self.var@[self.trail@[i].var() as int]); }
            else { assert(o.trail@[i] == l); if o.trail_lim@.len() > 0 { let k = o.trail_lim@.len() - 1; if k < self.trail_lim@.len() { assert(self.trail_lim@[k] < n); } } }
        }
        assert forall|i: int| 0 <= i < o.trail@.len() implies o.lit_ok(#[trigger] o.trail@[i]) && o.value(o.trail@[i].var() as int) == Some(o.trail@[i].sign()) && o.var@[o.trail@[i].var() as int].reason != AssignReason::None by { assert(o.lev_at(i)); }
        assert forall|i: int, j: int| 0 <= i < j < o.trail@.len() implies (#[trigger] o.trail@[i]).var() != (#[trigger] o.trail@[j]).var() by { assert(o.lev_at(i)); assert(o.lev_at(j)); if j < n { assert(self.trail@[i].var() != self.trail@[j].var()); } }
        assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); if self.trail_saved@[i].var() != l.var() { assert(o.var@[self.trail_saved@[i].var() as int] == self.var@[self.trail_saved@[i].var() as int]); } }
        assert forall|w: int| 1 <= w <= o.nv() && (#[trigger] o.var@[w]).assign.is_some() && !o.on_trail(w) implies o.var@[w].level == 0 by {
            assert(o.trail@[n] == l);
            assert(w != l.var());
            assert(o.var@[w] == self.var@[w]);
            assert(!self.on_trail(w)) by { if self.on_trail(w) { let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == w; assert(o.trail@[i].var() == w); } } }
        assert forall|i: int| 0 <= i < o.trail_lim@.len() implies #[trigger] o.trail_lim@[i] < o.trail@.len() by { if i < self.trail_lim@.len() { assert(self.trail_lim@[i] < n); } }
        assert forall|i: int, j: int| 0 <= i < j < o.trail_lim@.len() implies #[trigger] o.trail_lim@[i] < #[trigger] o.trail_lim@[j] by { if j < self.trail_lim@.len() { assert(self.trail_lim@[i] < self.trail_lim@[j]); } else { assert(self.trail_lim@[i] < n); } }
    }
    pub proof fn lem_assign_queue(&self, o: &AssignStack, l: Lit)
        requires self.assigned_to(o, l), self.queue_but(l.var() as int), forall|v: int| #![trigger self.var_order.has(v)] v != l.var() && self.var_order.has(v) ==> o.var_order.has(v)
        ensures o.queue_ok() {
        assert forall|v: int| #[trigger] o.open_var(v) implies o.kept(v) by { assert(v != l.var()); assert(o.var@[v] == self.var@[v]); assert(self.open_var(v)); assert(self.kept(v));
            if !self.var_order.has(v) { let i = choose|i: int| 0 <= i < self.trail_saved@.len() && #[trigger] self.trail_saved@[i].var() == v; assert(o.trail_saved@[i].var() == v); } }
    }
    /// the queue is complete except possibly for v
    pub open spec fn queue_but(&self, v: int) -> bool { forall|w: int| #[trigger] self.open_var(w) && w != v ==> self.kept(w) }
    /// nothing but activities, saved reasons and the queue changed
    pub proof fn lem_same(&self, o: &AssignStack)
        requires self.wf(), o.heap_ok(), o.saved_ok(), o.same_assignment(self),
        ensures o.wf() {
        assert forall|i: int| 0 <= i < o.trail@.len() implies #[trigger] o.lev_at(i) by { assert(self.lev_at(i)); assert(self.lit_ok(self.trail@[i])); assert(o.same_var(self, self.trail@[i].var() as int)); }
        assert forall|i: int| 0 <= i < o.trail@.len() implies o.lit_ok(#[trigger] o.trail@[i]) && o.value(o.trail@[i].var() as int) == Some(o.trail@[i].sign()) && o.var@[o.trail@[i].var() as int].reason != AssignReason::None by { assert(self.lit_ok(self.trail@[i])); assert(o.same_var(self, self.trail@[i].var() as int)); }
        assert forall|w: int| 1 <= w <= o.nv() && (#[trigger] o.var@[w]).assign.is_some() && !o.on_trail(w) implies o.var@[w].level == 0 by { assert(o.same_var(self, w)); assert(!self.on_trail(w)) by { if self.on_trail(w) { let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == w; assert(o.trail@[i].var() == w); } } }
    }
    pub proof fn lem_saved_push(&self, o: &AssignStack, l: Lit)
        requires self.wf(), self.lit_ok(l), self.var@[l.var() as int].reason != AssignReason::None, o.heap_ok(), o.var@.len() == self.var@.len(), o.trail_saved@ == self.trail_saved@.push(l), o.trail@ == self.trail@, o.trail_lim@ == self.trail_lim@, o.q_head == self.q_head, o.root_level == self.root_level,
            o.num_vars == self.num_vars, o.num_eliminated_vars == self.num_eliminated_vars, o.eliminated == self.eliminated,
            forall|w: int| 0 <= w < o.var@.len() && w != l.var() ==> #[trigger] o.var@[w] == self.var@[w],
            o.same_var(self, l.var() as int), o.var@[l.var() as int].reason_saved == self.var@[l.var() as int].reason,
            forall|v: int| #![trigger self.var_order.has(v)] self.var_order.has(v) ==> o.var_order.has(v),
        ensures o.wf(), o.same_assignment(self), forall|v: int| #![trigger self.kept(v)] #![trigger o.kept(v)] self.kept(v) ==> o.kept(v), o.kept(l.var() as int) {
        assert forall|v: int| 0 <= v < o.var@.len() implies #[trigger] o.same_var(self, v) by { if v != l.var() { assert(o.var@[v] == self.var@[v]); } }
        assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by {
            if i < self.trail_saved@.len() { assert(self.lit_ok(self.trail_saved@[i])); if self.trail_saved@[i].var() != l.var() { assert(o.var@[self.trail_saved@[i].var() as int] == self.var@[self.trail_saved@[i].var() as int]); } } }
        self.lem_same(o);
        assert(o.trail_saved@[o.trail_saved@.len() - 1] == l);
        assert(o.saved(l.var() as int));
        assert forall|v: int| #![trigger self.kept(v)] #![trigger o.kept(v)] self.kept(v) implies o.kept(v) by {
            if !self.var_order.has(v) { let i = choose|i: int| 0 <= i < self.trail_saved@.len() && #[trigger] self.trail_saved@[i].var() == v; assert(o.trail_saved@[i].var() == v); } }
    }
    /// self: before the loop of cancel_until; o: at its end
    pub proof fn lem_cancel(&self, o: &AssignStack, lv: int)
        requires self.wf(), 0 <= lv < self.trail_lim@.len(), o.heap_ok(), o.trail_saved == self.trail_saved,
            o.var@.len() == self.var@.len(), o.trail@ == self.trail@.take(self.trail_lim@[lv] as int), o.trail_lim@ == self.trail_lim@.take(lv), o.root_level == self.root_level,
            o.q_head == (if self.q_head < self.trail_lim@[lv] { self.q_head } else { self.trail_lim@[lv] }), 
            forall|j: int| self.trail_lim@[lv] <= j < self.trail@.len() ==> cleared(&o.var@[(#[trigger] self.trail@[j]).var() as int], &self.var@[self.trail@[j].var() as int]),
            forall|v: int| 0 <= v < o.var@.len() && !part(self.trail@, self.trail_lim@[lv] as int, self.trail@.len() as int, v) ==> #[trigger] o.var@[v] == self.var@[v],
            forall|v: int| 0 <= v < o.var@.len() ==> (#[trigger] o.var@[v]).reason_saved == self.var@[v].reason_saved,
        ensures o.wf(),
            forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() && !(self.value(v).is_some() && self.var@[v].level > lv) ==> o.var@[v] == self.var@[v],
            forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() && self.value(v).is_some() && self.var@[v].level > lv ==> cleared(&o.var@[v], &self.var@[v]),
    {
        let lim = self.trail_lim@[lv] as int;
        let n = self.trail@.len() as int;
        // below the boundary: untouched
        assert forall|i: int| 0 <= i < lim implies !part(self.trail@, lim, n, (#[trigger] self.trail@[i]).var() as int) by {
            if part(self.trail@, lim, n, self.trail@[i].var() as int) { let j = choose|j: int| lim <= j < n && (#[trigger] self.trail@[j]).var() == self.trail@[i].var(); assert(i < j); } }
        assert forall|i: int| 0 <= i < o.trail@.len() implies o.lit_ok(#[trigger] o.trail@[i]) && o.value(o.trail@[i].var() as int) == Some(o.trail@[i].sign()) && o.var@[o.trail@[i].var() as int].reason != AssignReason::None by {
            assert(o.trail@[i] == self.trail@[i]); assert(self.lit_ok(self.trail@[i])); assert(o.var@[self.trail@[i].var() as int] == self.var@[self.trail@[i].var() as int]); }
        assert forall|i: int| 0 <= i < o.trail@.len() implies #[trigger] o.lev_at(i) by {
            assert(o.trail@[i] == self.trail@[i]); assert(self.lit_ok(self.trail@[i])); assert(self.lev_at(i)); assert(o.var@[self.trail@[i].var() as int] == self.var@[self.trail@[i].var() as int]);
            let l = self.var@[self.trail@[i].var() as int].level as int;
            if l > lv { if l - 1 > lv { assert(self.trail_lim@[lv] < self.trail_lim@[l - 1]); } assert(false); }
        }
        assert forall|i: int| 0 <= i < o.trail_lim@.len() implies #[trigger] o.trail_lim@[i] < o.trail@.len() by { assert(self.trail_lim@[i] < self.trail_lim@[lv]); }
        assert forall|w: int| 1 <= w <= o.nv() && (#[trigger] o.var@[w]).assign.is_some() && !o.on_trail(w) implies o.var@[w].level == 0 by {
            assert(!part(self.trail@, lim, n, w)) by { if part(self.trail@, lim, n, w) { let j = choose|j: int| lim <= j < n && (#[trigger] self.trail@[j]).var() == w; assert(cleared(&o.var@[self.trail@[j].var() as int], &self.var@[self.trail@[j].var() as int])); } }
            assert(o.var@[w] == self.var@[w]);
            assert(!self.on_trail(w)) by { if self.on_trail(w) { let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == w; assert(i < lim); assert(o.trail@[i].var() == w); } }
        }
        assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); }
        assert forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() implies (if self.value(v).is_some() && self.var@[v].level > lv { cleared(&o.var@[v], &self.var@[v]) } else { o.var@[v] == self.var@[v] }) by {
            if part(self.trail@, lim, n, v) {
                let j = choose|j: int| lim <= j < n && (#[trigger] self.trail@[j]).var() == v;
                assert(self.lev_at(j)); assert(self.value(v) == Some(self.trail@[j].sign()));
                let l = self.var@[v].level as int;
                if l <= lv { if l < lv { assert(self.trail_lim@[l] < self.trail_lim@[lv]); } assert(false); }
            } else {
                assert(o.var@[v] == self.var@[v]);
                if self.value(v).is_some() && self.var@[v].level > lv {
                    assert(self.on_trail(v));
                    let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == v;
                    assert(self.lev_at(i));
                    let l = self.var@[v].level as int;
                    if l - 1 > lv { assert(self.trail_lim@[lv] < self.trail_lim@[l - 1]); }
                    assert(lim <= i);
                }
            }
        }
    }
    /// the value of v among the assignments of level 0
    pub open spec fn root_value(&self, v: int) -> Option<bool> { if self.value(v).is_some() && self.var@[v].level == 0 { self.value(v) } else { None } }
    pub open spec fn root_trail(&self) -> Seq<Lit> { if self.trail_lim@.len() == 0 { self.trail@ } else { self.trail@.take(self.trail_lim@[0] as int) } }
    pub proof fn lem_level0(&self, v: int) requires self.wf(), 1 <= v <= self.nv(), self.trail_lim@.len() == 0 ensures self.value(v).is_some() ==> self.var@[v].level == 0 {
        if self.value(v).is_some() && self.on_trail(v) { let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == v; assert(self.lev_at(i)); } else if self.value(v).is_some() { assert(self.var@[v].assign.is_some()); }
    }
    /// an assignment above level lv lies above its boundary
    pub proof fn lem_high(&self, v: int, lv: int) requires self.wf(), 1 <= v <= self.nv(), 0 <= lv < self.trail_lim@.len(), self.value(v).is_some(), self.var@[v].level > lv
        ensures exists|i: int| self.trail_lim@[lv] <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == v {
        assert(self.on_trail(v));
        let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == v;
        assert(self.lev_at(i));
        let l = self.var@[v].level as int;
        if l - 1 > lv { assert(self.trail_lim@[lv] < self.trail_lim@[l - 1]); }
        assert(self.trail_lim@[lv] <= i);
    }
    /// writing level 0 to a variable assigned at level 0 changes nothing
    pub proof fn lem_relevel(&self, o: &AssignStack, v: int)
        requires self.wf(), 1 <= v <= self.nv(), self.value(v).is_some(), self.var@[v].level == 0, o.var@.len() == self.var@.len(), o.var@[v] == self.var@[v], *o == (AssignStack { var: o.var, ..*self }),
            forall|w: int| 0 <= w < o.var@.len() && w != v ==> #[trigger] o.var@[w] == self.var@[w],
        ensures *o == *self || o.wf(), self.queue_ok() ==> o.queue_ok(), o.wf() {
        assert(o.var@ =~= self.var@);
        assert forall|v: int| 0 <= v < o.var@.len() implies #[trigger] o.same_var(self, v) by {}
        assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); }
        self.lem_same(o);
        if self.queue_ok() { assert forall|w: int| #[trigger] o.open_var(w) implies o.kept(w) by { assert(self.open_var(w)); assert(self.kept(w)); 
            if !self.var_order.has(w) { let i = choose|i: int| 0 <= i < self.trail_saved@.len() && #[trigger] self.trail_saved@[i].var() == w; assert(o.trail_saved@[i].var() == w); } } }
    }
    pub proof fn lem_sandbox(&self, o: &AssignStack)
        requires self.wf(), 0 < self.trail_lim@.len(), o.heap_ok(), o.trail_saved == self.trail_saved,
            o.var@.len() == self.var@.len(), o.trail@ == self.trail@.take(self.trail_lim@[0] as int), o.trail_lim@ == self.trail_lim@.take(0), o.root_level == self.root_level,
            o.q_head == o.trail@.len(),
            forall|j: int| self.trail_lim@[0] <= j < self.trail@.len() ==> cleared0(&o.var@[(#[trigger] self.trail@[j]).var() as int], &self.var@[self.trail@[j].var() as int]),
            forall|v: int| 0 <= v < o.var@.len() && !part(self.trail@, self.trail_lim@[0] as int, self.trail@.len() as int, v) ==> #[trigger] o.var@[v] == self.var@[v],
            forall|v: int| 0 <= v < o.var@.len() ==> (#[trigger] o.var@[v]).flags == self.var@[v].flags && o.var@[v].reason_saved == self.var@[v].reason_saved,
        ensures o.wf(),
            forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() ==> o.value(v) == self.root_value(v) && (o.value(v).is_some() ==> o.same_var(self, v)), 
    {
        let lim = self.trail_lim@[0] as int;
        let n = self.trail@.len() as int;
        assert forall|i: int| 0 <= i < lim implies !part(self.trail@, lim, n, (#[trigger] self.trail@[i]).var() as int) by {
            if part(self.trail@, lim, n, self.trail@[i].var() as int) { let j = choose|j: int| lim <= j < n && (#[trigger] self.trail@[j]).var() == self.trail@[i].var(); assert(i < j); } }
        assert forall|i: int| 0 <= i < o.trail@.len() implies o.lit_ok(#[trigger] o.trail@[i]) && o.value(o.trail@[i].var() as int) == Some(o.trail@[i].sign()) && o.var@[o.trail@[i].var() as int].reason != AssignReason::None by {
            assert(o.trail@[i] == self.trail@[i]); assert(self.lit_ok(self.trail@[i])); assert(o.var@[self.trail@[i].var() as int] == self.var@[self.trail@[i].var() as int]); }
        assert forall|i: int| 0 <= i < o.trail@.len() implies #[trigger] o.lev_at(i) by {
            assert(o.trail@[i] == self.trail@[i]); assert(self.lit_ok(self.trail@[i])); assert(self.lev_at(i)); assert(o.var@[self.trail@[i].var() as int] == self.var@[self.trail@[i].var() as int]);
            let l = self.var@[self.trail@[i].var() as int].level as int;
            if l > 0 { if l - 1 > 0 { assert(self.trail_lim@[0] < self.trail_lim@[l - 1]); } assert(false); }
        }
        assert forall|w: int| 1 <= w <= o.nv() && (#[trigger] o.var@[w]).assign.is_some() && !o.on_trail(w) implies o.var@[w].level == 0 by {
            assert(!part(self.trail@, lim, n, w)) by { if part(self.trail@, lim, n, w) { let j = choose|j: int| lim <= j < n && (#[trigger] self.trail@[j]).var() == w; assert(cleared0(&o.var@[self.trail@[j].var() as int], &self.var@[self.trail@[j].var() as int])); } }
            assert(o.var@[w] == self.var@[w]);
            assert(!self.on_trail(w)) by { if self.on_trail(w) { let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == w; assert(i < lim); assert(o.trail@[i].var() == w); } }
        }
        assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); }
        assert forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() implies o.value(v) == self.root_value(v) && (o.value(v).is_some() ==> o.same_var(self, v)) by {
            if part(self.trail@, lim, n, v) {
                let j = choose|j: int| lim <= j < n && (#[trigger] self.trail@[j]).var() == v;
                assert(self.lev_at(j)); assert(self.value(v) == Some(self.trail@[j].sign()));
                if self.var@[v].level == 0 { assert(false); }
            } else {
                assert(o.var@[v] == self.var@[v]);
                if self.value(v).is_some() && self.var@[v].level > 0 { self.lem_high(v, 0); assert(false); }
            }
        }
    }
    /// only the queue and the saved trail changed
    pub proof fn lem_queue_only(&self, o: &AssignStack)
        requires self.wf(), o.same_but_queue(self), o.heap_ok(), o.saved_ok()
        ensures o.wf(), forall|v: int| #![trigger self.open_var(v)] #![trigger o.open_var(v)] self.open_var(v) == o.open_var(v) {
        assert forall|v: int| 0 <= v < o.var@.len() implies #[trigger] o.same_var(self, v) by {}
        self.lem_same(o);
    }
    pub proof fn lem_queue_grew(&self, o: &AssignStack)
        requires self.wf(), self.queue_ok(), o.same_but_queue(self), o.trail_saved == self.trail_saved, o.heap_ok(), forall|v: int| #![trigger self.var_order.has(v)] self.var_order.has(v) ==> o.var_order.has(v)
        ensures o.wf(), o.queue_ok() {
        assert(o.saved_ok()) by { assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); } }
        self.lem_queue_only(o);
        assert forall|v: int| #[trigger] o.open_var(v) implies o.kept(v) by { assert(self.open_var(v)); assert(self.kept(v)); if !self.var_order.has(v) { let i = choose|i: int| 0 <= i < self.trail_saved@.len() && #[trigger] self.trail_saved@[i].var() == v; assert(o.trail_saved@[i].var() == v); } }
    }
    pub proof fn lem_truncate(&self, o: &AssignStack, n: int)
        requires self.wf(), self.queue_ok(), *o == (AssignStack { trail_saved: o.trail_saved, ..*self }), 0 <= n <= self.trail_saved@.len(), o.trail_saved@ == self.trail_saved@.take(n),
            forall|k: int| n <= k < self.trail_saved@.len() ==> self.value((#[trigger] self.trail_saved@[k]).var() as int).is_some(),
        ensures o.wf(), o.queue_ok() {
        assert(o.saved_ok()) by { assert forall|i: int| 0 <= i < o.trail_saved@.len() implies o.lit_ok(#[trigger] o.trail_saved@[i]) && o.var@[o.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(self.lit_ok(self.trail_saved@[i])); } }
        self.lem_queue_only(o);
        assert forall|v: int| #[trigger] o.open_var(v) implies o.kept(v) by { assert(self.open_var(v)); assert(self.kept(v)); if !self.var_order.has(v) { let i = choose|i: int| 0 <= i < self.trail_saved@.len() && #[trigger] self.trail_saved@[i].var() == v; assert(i < n); assert(o.trail_saved@[i].var() == v); } }
    }
    pub proof fn lem_cleared(&self, o: &AssignStack)
        requires self.wf(), self.queue_ok(), o.same_but_queue(self), o.heap_ok(), o.trail_saved@.len() == 0, forall|v: int| #[trigger] self.kept(v) ==> o.var_order.has(v)
        ensures o.wf(), o.queue_ok() {
        self.lem_queue_only(o);
        assert forall|v: int| #[trigger] o.open_var(v) implies o.kept(v) by { assert(self.open_var(v)); assert(self.kept(v)); }
    }
    /// self -> s (saving the trail) -> o (taking back)
    pub proof fn lem_cancel_from(&self, s: &AssignStack, o: &AssignStack, lv: int)
        requires self.wf(), 0 <= lv < self.trail_lim@.len(), s.same_assignment(self), s.same_marks(self), none_lost(s, self), 
            forall|i: int| self.trail_lim@[lv] <= i < self.trail@.len() ==> s.kept((#[trigger] self.trail@[i]).var() as int),
            o.var_order == s.var_order, o.trail_saved == s.trail_saved, o.var@.len() == s.var@.len(),
            o.trail@ == self.trail@.take(self.trail_lim@[lv] as int), o.trail_lim@ == self.trail_lim@.take(lv), o.root_level == self.root_level,
            o.q_head == (if self.q_head < self.trail_lim@[lv] { self.q_head } else { self.trail_lim@[lv] }), 
            o.num_vars == self.num_vars && o.num_eliminated_vars == self.num_eliminated_vars && o.eliminated == self.eliminated,
            forall|v: int| #![trigger o.var@[v]] 1 <= v <= s.nv() && !(s.value(v).is_some() && s.var@[v].level > lv) ==> o.var@[v] == s.var@[v],
            forall|v: int| #![trigger o.var@[v]] 1 <= v <= s.nv() && s.value(v).is_some() && s.var@[v].level > lv ==> cleared(&o.var@[v], &s.var@[v]),
        ensures self.cancelled_to(o, lv), self.queue_ok() ==> o.queue_ok() {
        assert forall|v: int| #![trigger o.var@[v]] 1 <= v <= self.nv() implies o.gone(v) == self.gone(v) && (if self.value(v).is_some() && self.var@[v].level > lv { cleared(&o.var@[v], &self.var@[v]) } else { o.same_var(self, v) }) by { assert(s.same_var(self, v)); assert(s.var@[v].level == self.var@[v].level); }
        if self.queue_ok() {
            assert forall|v: int| #[trigger] o.open_var(v) implies o.kept(v) by {
                assert(o.var@[v] == o.var@[v]);
                assert(s.same_var(self, v));
                if self.value(v).is_some() {
                    assert(self.var@[v].level > lv);
                    assert(self.on_trail(v));
                    let i = choose|i: int| 0 <= i < self.trail@.len() && #[trigger] self.trail@[i].var() == v;
                    assert(self.lev_at(i));
                    let l = self.var@[v].level as int;
                    if l - 1 > lv { assert(self.trail_lim@[lv] < self.trail_lim@[l - 1]); }
                    assert(s.kept(self.trail@[i].var() as int));
                } else { assert(self.open_var(v)); assert(self.kept(v)); }
                assert(s.kept(v));
                if !s.var_order.has(v) { let i = choose|i: int| 0 <= i < s.trail_saved@.len() && #[trigger] s.trail_saved@[i].var() == v; assert(o.trail_saved@[i].var() == v); }
            }
        }
    }
}
"""
VAR = r"""
impl Var {
    /// only the activity and the USED flag may differ
    pub open spec fn same_but_activity(&self, o: &Var) -> bool {
        *self == (Var { reward: self.reward, flags: FlagVar { used: self.flags.used, ..o.flags }, ..*o })
    }
}
"""


FLOAT = """
#[verifier::external_body] pub fn verif_fmul(a: f64, b: f64) -> f64 { a * b }
#[verifier::external_body] pub fn verif_fadd(a: f64, b: f64) -> f64 { a + b }
#[verifier::external_body] pub fn verif_next(a: usize) -> usize { a.wrapping_add(1) }
#[verifier::external_body] pub fn verif_any_u16() -> u16 { 0 }
"""


def types(u):
    u_lit.base(u)
    u.assume(FLOAT, "f64 addition and multiplication return some f64 (activity values are not part of any contract)")
    u.assume(SWAP, SWAP_WHY)
    u.text(UNREACH)
    u.text("pub type DecisionLevel = u32;")
    u.enum("assign", "AssignReason", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    flags(u, "FlagVar")
    u.struct("types::var", "Var")
    u.text(VAR)


DROPSTAT = [("self . cpr_ema . update ( self . num_conflict ) ;", "", "moving average, statistics only"),
            ("self . num_restart += 1 ;", "", "statistics counter"), ("self . num_decision += 1 ;", "", "statistics counter"),
            ("self . num_eliminated_vars += 1 ;", "self . num_eliminated_vars = verif_next ( self . num_eliminated_vars ) ;", "counter: overflow not considered")]

PERC_INV = r"""invariant
    self.var_order.hole(%(q)s as int, v%(q)s as int),
    self.var_order.size() == old(self).var_order.size(), self.var@.len() == self.var_order.size(), self.var_order.alive() == old(self).var_order.alive(),
    old(self).heap_ok(), 1 <= start < self.var_order.size(), %(rng)s
    old(self).var_order.heap@[start as int] == v%(q)s,
    *self == (AssignStack { var_order: self.var_order, ..*old(self) }),
    forall|v: int| #![trigger self.var_order.has(v)] #![trigger old(self).var_order.has(v)] v != v%(q)s ==> self.var_order.has(v) == old(self).var_order.has(v),
"""


def stack(u):
    """the assignment stack with its invariant"""
    types(u)
    u.struct("assign::heap", "VarIdHeap")
    u.struct("assign::stack", "AssignStack", keep=[
        "trail", "trail_lim", "q_head", "root_level", "var_order", "trail_saved", "best_assign", "build_best_at", "num_best_assign", "eliminated",
        "num_vars", "num_asserted_vars", "num_eliminated_vars", "num_decision", "num_conflict", "num_restart", "var", "activity_decay", "activity_anti_decay"])
    u.text(HEAP + ASG)
    u.assume(ASSUMED, "save_best_phases and check_best_phase touch only best_phases, build_best_at, phase_age, num_best_assign (checked syntactically on the source on every run)")
    u.frame("assign::propagate", "impl AssignStack", "save_best_phases", ["best_phases", "build_best_at", "phase_age"], ["len_upto"])
    u.frame("assign::stack", "impl AssignStack", "check_best_phase", ["best_phases", "num_best_assign"])
    u.text("pub type ConflictContext = (Lit, AssignReason);\npub type PropagationResult = Result<(), ConflictContext>;\npub type MaybeInconsistent = Result<(), SolverError>;")
    u.enum("types", "SolverError")
    u.text(LEMMAS)


def unit():
    u = Unit("assign")
    stack(u)
    HS, vm = "assign::stack", "impl VarManipulateIF for AssignStack"
    u.assume(RETAIN, "Vec::retain with the predicate `not this variable` keeps a vector in which the variable does not occur")
    u.assume(CDBVIEW, "reuse_saved_trail: the rank and the first literal of a clause are arbitrary (only the queue and the trail are specified)")
    V = "types::var"
    f = u.fn
    fi = "impl FlagIF for Var"
    ft = [("Self :: FlagType", "FlagVar")]
    f(V, fi, "is", into="Var", subst=ft, spec="ensures flag == FlagVar::ELIMINATED ==> r == self.flags.eliminated, flag == FlagVar::USED ==> r == self.flags.used, flag == FlagVar::PHASE ==> r == self.flags.phase, flag == FlagVar::CA_SEEN ==> r == self.flags.ca_seen, flag == FlagVar::ENQUEUED ==> r == self.flags.enqueued")
    f(V, fi, "set", into="Var", subst=ft, spec="ensures f == FlagVar::PHASE ==> *final(self) == (Var { flags: FlagVar { phase: b, ..old(self).flags }, ..*old(self) })")
    for nm, v in (("turn_off", "false"), ("turn_on", "true")):
        f(V, fi, nm, into="Var", subst=ft, spec="ensures " + ", ".join(f"flag == FlagVar::{a} ==> *final(self) == (Var {{ flags: FlagVar {{ {b}: {v}, ..old(self).flags }}, ..*old(self) }})" for a, b in (("USED", "used"), ("ELIMINATED", "eliminated"), ("CA_SEEN", "ca_seen"), ("ENQUEUED", "enqueued"))))
    LR = "assign::reward"
    f(LR, "impl Var", "update_activity", into="Var", subst=[("self . reward *= $$e ;", "self . reward = verif_fmul ( self . reward , $$e ) ;"), ("self . reward += $$e ;", "self . reward = verif_fadd ( self . reward , $$e ) ;")], spec="ensures final(self).same_but_activity(old(self))")
    ai = "impl ActivityIF < VarId > for AssignStack"
    one = "final(self).var@.len() == old(self).var@.len(), forall|v: int| 0 <= v < final(self).var@.len() && v != vi ==> #[trigger] final(self).var@[v] == old(self).var@[v]"
    actf = f"requires vi < old(self).var@.len(), ensures {one}, final(self).var@[vi as int].same_but_activity(&old(self).var@[vi as int]), *final(self) == (AssignStack {{ var: final(self).var, ..*old(self) }})"
    f(LR, ai, "activity", into="AssignStack", spec="requires vi < self.var@.len()")
    f(LR, ai, "set_activity", into="AssignStack", spec=actf)
    f(LR, ai, "reward_at_assign", into="AssignStack", spec="ensures *final(self) == *old(self)")
    f(LR, ai, "reward_at_unassign", into="AssignStack", spec=actf)
    # ------------- heap
    H = "assign::heap"
    vo = "impl VarOrderIF for VarIdHeap"
    f(H, vo, "clear", into="VarIdHeap", spec="requires old(self).shape(), ensures final(self).wf(), final(self).size() == old(self).size(), final(self).alive() == 0",
      loops={0: "invariant self.heap@.len() == old(self).heap@.len(), self.idxs@.len() == self.heap@.len(), old(self).shape(), forall|k: int| 0 <= k < i ==> #[trigger] self.heap@[k] == k, forall|k: int| 0 <= k < i ==> #[trigger] self.idxs@[k] == k"}, nloops=1)
    f(H, vo, "contains", into="VarIdHeap", spec="requires self.shape(), 1 <= v < self.size(), ensures r == self.has(v as int)")
    f(H, vo, "len", into="VarIdHeap", spec="requires self.shape(), ensures r == self.alive()")
    f(H, vo, "is_empty", into="VarIdHeap", spec="requires self.shape(), ensures r == (self.alive() == 0)")
    f(H, vo, "get_root", into="VarIdHeap", spec="""requires old(self).wf(), old(self).alive() >= 1,
    ensures final(self).wf(), final(self).size() == old(self).size(), final(self).alive() == old(self).alive() - 1,
        old(self).has(r as int), !final(self).has(r as int), forall|v: int| #![trigger final(self).has(v)] #![trigger old(self).has(v)] v != r ==> final(self).has(v) == old(self).has(v)""")
    f(H, vo, "insert", into="VarIdHeap", spec="""requires old(self).wf(), 1 <= vi < old(self).size(),
    ensures final(self).wf(), final(self).size() == old(self).size(), 1 <= r <= final(self).alive(), final(self).has(vi as int),
        forall|v: int| #![trigger final(self).has(v)] #![trigger old(self).has(v)] v != vi ==> final(self).has(v) == old(self).has(v)""",
      pre="proof { assert(old(self).alive() + 1 <= old(self).size()); }",
      ghost=[("after_stmt", "let i =", "proof { assert(self.inverse_at(1) || true); assert(self.alive() < self.idxs@[vi as int] < self.size()); }")])
    f(H, vo, "remove", into="VarIdHeap", spec="""requires old(self).wf(), 1 <= vi < old(self).size(),
    ensures final(self).wf(), final(self).size() == old(self).size(), !final(self).has(vi as int),
        forall|v: int| #![trigger final(self).has(v)] #![trigger old(self).has(v)] v != vi ==> final(self).has(v) == old(self).has(v),
        r matches Some(i) ==> 1 <= i < final(self).size()""")
    hi = "impl VarHeapIF for AssignStack"
    frame = "*final(self) == (AssignStack { var_order: final(self).var_order, ..*old(self) })"
    f(H, hi, "clear_heap", into="AssignStack", spec=f"requires old(self).heap_ok(), ensures final(self).heap_ok(), {frame}, final(self).var_order.alive() == 0")
    f(H, hi, "expand_heap", into="AssignStack", spec="""requires old(self).var_order.wf(), old(self).var_order.size() < 0x4000_0000, 
    ensures final(self).var_order.wf(), final(self).var_order.size() == old(self).var_order.size() + 1, final(self).var_order.alive() == old(self).var_order.alive(),
        forall|v: int| v != old(self).var_order.size() ==> #[trigger] final(self).var_order.has(v) == old(self).var_order.has(v), """ + frame)
    percs = "requires old(self).heap_ok(), 1 <= start < old(self).var_order.size(), %s ensures final(self).heap_ok(), " + frame + ", final(self).var_order.same_members(&old(self).var_order)"
    f(H, hi, "percolate_up", into="AssignStack", spec=percs % "start <= old(self).var_order.alive(),", nloops=1,
      loops={0: {"inv": PERC_INV % dict(q="q", rng="q <= start <= self.var_order.alive(),") + "decreases q", "top": "proof { assert(q / 2 < q); }"}})
    f(H, hi, "percolate_down", into="AssignStack", spec=percs % "", nloops=1,
      loops={0: {"inv": PERC_INV % dict(q="i", rng="start <= i, n == self.var_order.alive(), i == start || i < n, old(self).var_order.has(vi as int) == (start <= n),") + "decreases self.var_order.size() - i"}})
    f(H, hi, "update_heap", into="AssignStack", spec="requires old(self).heap_ok(), 1 <= v < old(self).var_order.size(), ensures final(self).heap_ok(), " + frame + ", final(self).var_order.same_members(&old(self).var_order)")
    f(H, hi, "insert_heap", into="AssignStack", spec="requires old(self).heap_ok(), 1 <= vi <= old(self).nv(), ensures final(self).heap_ok(), " + frame + ", final(self).var_order.has(vi as int), forall|v: int| #![trigger final(self).var_order.has(v)] #![trigger old(self).var_order.has(v)] v != vi ==> final(self).var_order.has(v) == old(self).var_order.has(v)")
    f(H, hi, "remove_from_heap", into="AssignStack", spec="requires old(self).heap_ok(), 1 <= vi <= old(self).nv(), ensures final(self).heap_ok(), " + frame + ", !final(self).var_order.has(vi as int), forall|v: int| #![trigger final(self).var_order.has(v)] #![trigger old(self).var_order.has(v)] v != vi ==> final(self).var_order.has(v) == old(self).var_order.has(v)")
    T = "assign::trail_saving"
    ti = "impl TrailSavingIF for AssignStack"
    f(T, ti, "clear_saved_trail", into="AssignStack", nloops=1, spec="requires old(self).heap_ok(), old(self).saved_ok(), ensures final(self).heap_ok(), final(self).same_but_queue(old(self)), final(self).trail_saved@.len() == 0, forall|v: int| #[trigger] old(self).kept(v) <==> final(self).var_order.has(v)",
      loops={0: "invariant self.heap_ok(), self.saved_ok(), self.trail_saved == old(self).trail_saved, self.same_but_queue(old(self)), forall|v: int| old(self).var_order.has(v) ==> #[trigger] self.var_order.has(v), forall|k: int| 0 <= k < j ==> self.var_order.has((#[trigger] self.trail_saved@[k]).var() as int), forall|v: int| #[trigger] self.var_order.has(v) ==> old(self).kept(v)"})
    f(H, hi, "get_heap_root", into="AssignStack", ghost=[("before", "let vs = self . var_order . get_root", """proof {
        if old(self).var_order.alive() == 0 {
            let l = old(self).trail_saved@[0];
            assert(old(self).saved(l.var() as int)); assert(old(self).kept(l.var() as int)); assert(self.var_order.has(l.var() as int));
        } }""")], spec="""requires old(self).heap_ok(), old(self).saved_ok(), old(self).var_order.alive() > 0 || old(self).trail_saved@.len() > 0,
    ensures final(self).heap_ok(), final(self).saved_ok(), final(self).same_but_queue(old(self)), 1 <= r <= final(self).nv(), !final(self).var_order.has(r as int),
        forall|v: int| v != r && #[trigger] old(self).kept(v) ==> final(self).kept(v),
        old(self).var_order.alive() > 0 ==> final(self).trail_saved == old(self).trail_saved && final(self).var_order.alive() == old(self).var_order.alive() - 1,
        old(self).var_order.alive() == 0 ==> final(self).trail_saved@.len() == 0""")
    f(HS, vm, "assigned", into="AssignStack", spec="requires self.lit_ok(l), ensures r == self.lit_value(l)")
    f(HS, "impl AssignIF for AssignStack", "decision_level", into="AssignStack", spec="requires self.wf(), ensures r == self.trail_lim@.len()",
      pre="proof { self.lem_levels(); }")
    f(HS, "impl AssignIF for AssignStack", "decision_level", into="AssignStack", rename="decision_level_raw", spec="requires self.trail_lim@.len() <= u32::MAX, ensures r == self.trail_lim@.len()")
    f("assign::propagate", "impl AssignStack", "level_up", into="AssignStack", spec="ensures *final(self) == (AssignStack { trail_lim: final(self).trail_lim, ..*old(self) }), final(self).trail_lim@ == old(self).trail_lim@.push(old(self).trail@.len() as usize)")
    f(HS, vm, "make_var_asserted", into="AssignStack", spec="""requires old(self).heap_ok(), 1 <= vi <= old(self).nv(),
    ensures final(self).heap_ok(), final(self).var@.len() == old(self).var@.len(), forall|v: int| 0 <= v < final(self).var@.len() && v != vi ==> #[trigger] final(self).var@[v] == old(self).var@[v],
        final(self).var@[vi as int].same_but_activity(&Var { reason: AssignReason::Decision(0), ..old(self).var@[vi as int] }),
        *final(self) == (AssignStack { var: final(self).var, var_order: final(self).var_order, num_best_assign: final(self).num_best_assign, ..*old(self) }),
        forall|v: int| #![trigger final(self).var_order.has(v)] #![trigger old(self).var_order.has(v)] v != vi ==> final(self).var_order.has(v) == old(self).var_order.has(v)""")
    f(HS, vm, "make_var_eliminated", into="AssignStack", drop=DROPSTAT, subst=[("self . trail . retain ( | l | l . vi ( ) != vi )", "verif_retain ( & mut self . trail , vi )", 1)],
      spec="""requires old(self).wf(), old(self).queue_ok(), 1 <= vi <= old(self).nv(), old(self).value(vi as int).is_none(), old(self).trail_lim@.len() == 0,
    ensures final(self).wf(), final(self).queue_ok(), final(self).gone(vi as int), final(self).trail@ == old(self).trail@, final(self).trail_lim@ == old(self).trail_lim@, final(self).q_head == old(self).q_head,
        final(self).var@.len() == old(self).var@.len(), final(self).value(vi as int).is_none(),
        forall|v: int| 0 <= v < final(self).var@.len() && v != vi ==> #[trigger] final(self).var@[v] == old(self).var@[v],
        forall|v: int| #![trigger final(self).kept(v)] v != vi ==> final(self).kept(v) == old(self).kept(v),
        !old(self).gone(vi as int) ==> final(self).var@[vi as int].same_but_activity(&Var { flags: FlagVar { eliminated: true, ..old(self).var@[vi as int].flags }, ..old(self).var@[vi as int] }) && final(self).trail_saved@ == old(self).trail_saved@ && final(self).num_vars == old(self).num_vars && final(self).eliminated == old(self).eliminated && final(self).root_level == old(self).root_level""",
      ghost=[("before", "verif_retain", "proof { assert(forall|i: int| 0 <= i < self.trail@.len() ==> (#[trigger] self.trail@[i]).var() != vi); }")],
      post="""proof { if !old(self).gone(vi as int) { old(self).lem_frame(self, vi as int); } 
        assert(self.wf());
        assert forall|v: int| v != vi implies #[trigger] self.kept(v) == old(self).kept(v) by { assert(self.saved(v) == old(self).saved(v)); assert(self.var_order.has(v) == old(self).var_order.has(v)); }
        assert forall|v: int| #[trigger] self.open_var(v) implies self.kept(v) by { assert(v != vi); assert(self.var@[v] == old(self).var@[v]); assert(old(self).open_var(v)); assert(old(self).kept(v)); } }""")
    P = "assign::propagate"
    pi = "impl PropagateIF for AssignStack"
    f(T, ti, "save_trail", into="AssignStack", nloops=2, spec="""requires old(self).wf(), to_lvl < old(self).trail_lim@.len(),
    ensures final(self).wf(), final(self).same_assignment(old(self)), final(self).best_assign == old(self).best_assign,
        none_lost(final(self), old(self)), final(self).saved_from(old(self), to_lvl as int), final(self).same_marks(old(self)),
        forall|i: int| old(self).trail_lim@[to_lvl as int] <= i < old(self).trail@.len() ==> final(self).kept((#[trigger] old(self).trail@[i]).var() as int)""",
      ghost=[("after", "self . clear_saved_trail ( ) ;", "proof { assert forall|v: int| 0 <= v < self.var@.len() implies #[trigger] self.same_var(old(self), v) by {} old(self).lem_same(self); assert forall|v: int| #![trigger old(self).kept(v)] old(self).kept(v) implies self.kept(v) by { assert(self.var_order.has(v)); } }"),
        ("before", "for i in free", "let ghost s1 = *self; proof { assert(s1.saved_from(old(self), to_lvl as int)); }")],
      loops={0: {"inv": """invariant i_rev <= lim2, lim <= i_rev || i_rev == lim2, lim2 < old(self).trail@.len(), old(self).wf(), self.wf(), self.same_assignment(old(self)), self.best_assign == old(self).best_assign,
            forall|v: int| #![trigger old(self).kept(v)] old(self).kept(v) ==> self.kept(v),
            forall|i: int| i_rev <= i < lim2 ==> self.kept((#[trigger] old(self).trail@[i]).var() as int),
            self.same_marks(old(self)), self.trail_saved@.len() == lim2 - i_rev, forall|j: int| #![trigger self.trail_saved@[j]] 0 <= j < lim2 - i_rev ==> self.trail_saved@[j] == old(self).trail@[lim2 - 1 - j] && self.var@[old(self).trail@[lim2 - 1 - j].var() as int].reason_saved == old(self).var@[old(self).trail@[lim2 - 1 - j].var() as int].reason,
        decreases i_rev,""",
            "top": "let ghost sa = *self; proof { assert(old(self).trail@[i_rev - 1].wf()); }",
            "bottom": """proof { sa.lem_saved_push(self, l); assert(self.same_var(old(self), vi as int)) by { assert(sa.same_var(old(self), vi as int)); }
            assert forall|v: int| 0 <= v < self.var@.len() implies #[trigger] self.same_var(old(self), v) by { assert(sa.same_var(old(self), v)); }
            assert forall|v: int| #![trigger old(self).kept(v)] old(self).kept(v) implies self.kept(v) by { assert(sa.kept(v)); }
            assert forall|i: int| i_rev <= i < lim2 implies self.kept((#[trigger] old(self).trail@[i]).var() as int) by { if i > i_rev { assert(sa.kept(old(self).trail@[i].var() as int)); } }
            assert forall|v: int| #![trigger self.var@[v]] 0 <= v < self.var@.len() implies self.var@[v].flags.ca_seen == old(self).var@[v].flags.ca_seen && self.var@[v].level == old(self).var@[v].level by { assert(sa.var@[v].flags.ca_seen == old(self).var@[v].flags.ca_seen); }
            assert forall|j: int| #![trigger self.trail_saved@[j]] 0 <= j < lim2 - i_rev implies self.trail_saved@[j] == old(self).trail@[lim2 - 1 - j] && self.var@[old(self).trail@[lim2 - 1 - j].var() as int].reason_saved == old(self).var@[old(self).trail@[lim2 - 1 - j].var() as int].reason by {
                if j < lim2 - i_rev - 1 { assert(self.trail_saved@[j] == sa.trail_saved@[j]); assert(i_rev < lim2 - 1 - j); assert(old(self).lit_ok(old(self).trail@[lim2 - 1 - j])); assert(old(self).trail@[i_rev as int].var() != old(self).trail@[lim2 - 1 - j].var()); } else { assert(lim2 - 1 - j == i_rev); } } }"""},
        1: {"it": "it", "inv": """invariant it.iter.end == s1.trail@.len(), old(self).wf(), self.wf(), self.same_assignment(old(self)), self.best_assign == old(self).best_assign, free <= i <= self.trail@.len(), s1.trail == self.trail, s1.trail@ == old(self).trail@,
            forall|v: int| #![trigger s1.kept(v)] s1.kept(v) ==> self.kept(v),
            forall|k: int| free <= k < i ==> self.kept((#[trigger] old(self).trail@[k]).var() as int),
            self.trail_saved == s1.trail_saved, s1.same_marks(old(self)), self.same_marks(&s1), forall|v: int| 0 <= v < self.var@.len() ==> (#[trigger] self.var@[v]).reason_saved == s1.var@[v].reason_saved,""",
            "top": "let ghost sa = *self; proof { assert(self.lit_ok(self.trail@[i as int])); }",
            "bottom": """proof { sa.lem_same(self);
            assert forall|v: int| 0 <= v < self.var@.len() implies #[trigger] self.same_var(old(self), v) by { assert(sa.same_var(old(self), v)); }
            assert forall|v: int| #![trigger s1.kept(v)] s1.kept(v) implies self.kept(v) by { assert(sa.kept(v)); }
            assert forall|k: int| free <= k < i + 1 implies self.kept((#[trigger] old(self).trail@[k]).var() as int) by { if k < i { assert(sa.kept(old(self).trail@[k].var() as int)); } }
            assert forall|v: int| #![trigger self.var@[v]] 0 <= v < self.var@.len() implies self.var@[v].flags.ca_seen == s1.var@[v].flags.ca_seen && self.var@[v].level == s1.var@[v].level && self.var@[v].reason_saved == s1.var@[v].reason_saved by { assert(sa.var@[v].reason_saved == s1.var@[v].reason_saved); } }""", "after": "let ghost s2 = *self;"}},
      post="""proof { assert(s2 == *self); assert(s1.saved_from(old(self), to_lvl as int));
          assert forall|v: int| #![trigger self.var@[v]] 0 <= v < self.var@.len() implies self.var@[v].flags.ca_seen == old(self).var@[v].flags.ca_seen && self.var@[v].level == old(self).var@[v].level by { assert(s1.var@[v].level == old(self).var@[v].level); }
          let hi = AssignStack::saved_upto(old(self), to_lvl as int);
          assert forall|j: int| #![trigger self.trail_saved@[j]] 0 <= j < self.trail_saved@.len() implies self.trail_saved@[j] == old(self).trail@[hi - 1 - j] && self.var@[old(self).trail@[hi - 1 - j].var() as int].reason_saved == old(self).var@[old(self).trail@[hi - 1 - j].var() as int].reason by { assert(s1.lit_ok(s1.trail_saved@[j])); assert(s1.trail_saved@[j] == old(self).trail@[hi - 1 - j]); } }""")
    f(P, pi, "cancel_until", into="AssignStack", drop=DROPSTAT, nloops=1, spec="""requires old(self).wf(),
    ensures lv >= old(self).trail_lim@.len() ==> *final(self) == *old(self),
        final(self).wf(), old(self).queue_ok() ==> final(self).queue_ok(),
        lv < old(self).trail_lim@.len() ==> old(self).cancelled_to(final(self), lv as int),
        old(self).cancels(final(self), lv as int)""",
      pre="proof { old(self).lem_levels(); }",
      ghost=[("before", "let lim =", "proof { assert forall|v: int| 0 <= v < self.var@.len() implies #[trigger] self.same_var(old(self), v) by {} old(self).lem_same(self); } let ghost s0 = *self;"),
        ("before", "for i in lim", "let ghost s1 = *self; proof { assert forall|v: int| 0 <= v < self.var@.len() implies #[trigger] self.same_var(old(self), v) by { assert(s1.same_var(&s0, v)); } assert(none_lost(&s1, old(self))) by { assert forall|v: int| #[trigger] old(self).kept(v) implies s1.kept(v) by { assert(s0.kept(v)); } } }")],
      loops={0: {"inv": """invariant lim == old(self).trail_lim@[lv as int], lim < self.trail@.len(), s1.wf(), s1.same_assignment(old(self)),
            *self == (AssignStack { var: self.var, ..s1 }), self.var@.len() == s1.var@.len(),
            forall|j: int| lim <= j < i ==> cleared(&self.var@[(#[trigger] s1.trail@[j]).var() as int], &s1.var@[s1.trail@[j].var() as int]),
            forall|v: int| 0 <= v < self.var@.len() && !part(s1.trail@, lim as int, i as int, v) ==> #[trigger] self.var@[v] == s1.var@[v],
            forall|v: int| 0 <= v < self.var@.len() ==> (#[trigger] self.var@[v]).flags.eliminated == s1.var@[v].flags.eliminated && self.var@[v].reason_saved == s1.var@[v].reason_saved && self.var@[v].flags.ca_seen == s1.var@[v].flags.ca_seen && self.var@[v].level == s1.var@[v].level,""",
            "top": "let ghost sa = *self; proof { assert(s1.trail@[i as int].wf()); assert(s1.lit_ok(s1.trail@[i as int])); assert(!part(s1.trail@, lim as int, i as int, s1.trail@[i as int].var() as int)); }",
            "bottom": """proof {
                assert forall|v: int| 0 <= v < self.var@.len() && !part(s1.trail@, lim as int, i + 1, v) implies #[trigger] self.var@[v] == s1.var@[v] by {
                    assert(s1.trail@[i as int].var() != v); assert(!part(s1.trail@, lim as int, i as int, v)); assert(sa.var@[v] == s1.var@[v]); }
                assert forall|j: int| lim <= j < i + 1 implies cleared(&self.var@[(#[trigger] s1.trail@[j]).var() as int], &s1.var@[s1.trail@[j].var() as int]) by { assert(s1.lit_ok(s1.trail@[j])); }
            }""", "after": "let ghost s2 = *self;"}},
      post="""proof { s1.lem_cancel(self, lv as int); old(self).lem_cancel_from(&s1, self, lv as int);
          assert forall|v: int| #![trigger self.var@[v]] 0 <= v < self.var@.len() implies self.var@[v].flags.ca_seen == old(self).var@[v].flags.ca_seen && self.var@[v].level == old(self).var@[v].level by { assert(s1.var@[v].level == s0.var@[v].level); }
          let hi = AssignStack::saved_upto(old(self), lv as int);
          assert forall|j: int| #![trigger self.trail_saved@[j]] 0 <= j < self.trail_saved@.len() implies self.trail_saved@[j] == old(self).trail@[hi - 1 - j] && self.var@[old(self).trail@[hi - 1 - j].var() as int].reason_saved == old(self).var@[old(self).trail@[hi - 1 - j].var() as int].reason by {
              assert(s1.lit_ok(s1.trail_saved@[j])); assert(s1.trail_saved@[j] == s0.trail@[hi - 1 - j]); assert(s0.var@[s1.trail_saved@[j].var() as int] == old(self).var@[s1.trail_saved@[j].var() as int]); }
          assert(self.saved_from(old(self), lv as int)); }""")
    f(P, pi, "assign_by_decision", into="AssignStack", drop=DROPSTAT, spec="""requires old(self).wf(), old(self).lit_ok(l), old(self).value(l.var() as int).is_none(), old(self).queue_but(l.var() as int),
    ensures final(self).wf(), final(self).queue_ok(), old(self).assigned_to(final(self), l), final(self).trail_lim@ == old(self).trail_lim@.push(old(self).trail@.len() as usize),
        final(self).var@[l.var() as int].reason == AssignReason::Decision(final(self).trail_lim@.len() as u32), final(self).var@[l.var() as int].reason_saved == old(self).var@[l.var() as int].reason_saved""",
      pre="proof { old(self).lem_levels(); }",
      subst=[("AssignReason :: Decision ( self . decision_level ( ) )", "AssignReason :: Decision ( self . decision_level_raw ( ) )", 1)],
      post="proof { old(self).lem_assign(self, l); old(self).lem_assign_queue(self, l); }")
    f(P, pi, "assign_by_implication", into="AssignStack", spec="""requires old(self).wf(), old(self).lit_ok(l), old(self).value(l.var() as int).is_none(), old(self).queue_but(l.var() as int), reason != AssignReason::None, lv == old(self).trail_lim@.len(),
    ensures final(self).wf(), final(self).queue_ok(), old(self).assigned_to(final(self), l), final(self).trail_lim@ == old(self).trail_lim@,
        lv > 0 ==> final(self).var@[l.var() as int].reason == reason && final(self).var_order == old(self).var_order,
        final(self).var@[l.var() as int].reason_saved == old(self).var@[l.var() as int].reason_saved""",
      post="proof { old(self).lem_assign(self, l); old(self).lem_assign_queue(self, l); }")
    f(P, pi, "assign_at_root_level", into="AssignStack", subst=[("_ => Err ( $$x ) ,", "_ => { Err ( $$x ) } ,", 1)], spec="""requires old(self).wf(), old(self).lit_ok(l),
    ensures final(self).wf(), old(self).queue_ok() ==> final(self).queue_ok(), final(self).trail_lim@.len() == 0,
        old(self).trail_lim@.len() == 0 ==> final(self).var@[l.var() as int].level == 0 && forall|v: int| 0 <= v < old(self).var@.len() && v != l.var() ==> #[trigger] final(self).var@[v] == old(self).var@[v],
        final(self).var@.len() == old(self).var@.len(), final(self).eliminated == old(self).eliminated, final(self).num_vars == old(self).num_vars,
        old(self).root_value(l.var() as int) == Some(!l.sign()) ==> r == Err::<(), SolverError>(SolverError::RootLevelConflict((l, old(self).var@[l.var() as int].reason))),
        old(self).root_value(l.var() as int) != Some(!l.sign()) ==> r.is_ok() && final(self).root_value(l.var() as int) == Some(l.sign()),
        forall|v: int| #![trigger final(self).var@[v]] 1 <= v <= old(self).nv() && v != l.var() ==> final(self).value(v) == old(self).root_value(v) && final(self).gone(v) == old(self).gone(v) && (final(self).value(v).is_some() ==> final(self).var@[v].level == old(self).var@[v].level),
        old(self).root_value(l.var() as int).is_none() ==> final(self).trail@ == old(self).root_trail().push(l),
        old(self).root_value(l.var() as int).is_some() ==> final(self).trail@ == old(self).root_trail(),
        exists|s: AssignStack| s.wf() && (old(self).queue_ok() ==> s.queue_ok()) && old(self).cancels(&s, 0) && s.trail_lim@.len() == 0 && #[trigger] s.asserts(final(self), l)""",
      ghost=[("after", "self . cancel_until ( self . root_level ) ;", """let ghost s1 = *self; proof {
          assert(s1.trail@ == old(self).root_trail()) by { if old(self).trail_lim@.len() == 0 { assert(s1.trail@ == old(self).trail@); } }
          assert(s1.trail_lim@.len() == 0);
          assert forall|v: int| #![trigger s1.var@[v]] 1 <= v <= old(self).nv() implies s1.value(v) == old(self).root_value(v) && s1.gone(v) == old(self).gone(v) && (s1.value(v).is_some() ==> s1.same_var(old(self), v) && s1.var@[v].level == 0) by {
              s1.lem_level0(v);
              if old(self).trail_lim@.len() == 0 { old(self).lem_level0(v); }
          } }"""),
        ("before", "Ok ( ( ) )", "proof { let v = l.var() as int; assert(s1.var@[v] == s1.var@[v]); s1.lem_assign(self, l); if s1.queue_ok() { s1.lem_assign_queue(self, l); } assert(s1.asserts(self, l)); }", 0),
        ("before", "Ok ( ( ) )", "proof { let v = l.var() as int; assert(s1.var@[v] == s1.var@[v]); s1.lem_relevel(self, v); s1.lem_level0(v); assert(self.var@ =~= s1.var@); assert(s1.asserts(self, l)); }", 1),
        ("before", "Err ( SolverError", "proof { let v = l.var() as int; assert(s1.var@[v] == s1.var@[v]); s1.lem_relevel(self, v); s1.lem_level0(v); assert(self.var@ =~= s1.var@); assert(s1.asserts(self, l)); }", 0)])
    f(P, pi, "backtrack_sandbox", into="AssignStack", nloops=1, spec="""requires old(self).wf(), old(self).queue_ok(),
    ensures final(self).wf(), final(self).queue_ok(), final(self).trail_lim@.len() == 0, final(self).trail@ == old(self).root_trail(),
        final(self).var@.len() == old(self).var@.len(), final(self).eliminated == old(self).eliminated, final(self).num_vars == old(self).num_vars,
        old(self).trail_lim@.len() == 0 ==> *final(self) == *old(self), old(self).trail_lim@.len() > 0 ==> final(self).q_head == final(self).trail@.len(),
        forall|v: int| 0 <= v < old(self).var@.len() ==> (#[trigger] final(self).var@[v]).level == old(self).var@[v].level && final(self).var@[v].flags == old(self).var@[v].flags && final(self).var@[v].reason_saved == old(self).var@[v].reason_saved, final(self).trail_saved == old(self).trail_saved,
        forall|v: int| #![trigger final(self).var@[v]] 1 <= v <= old(self).nv() ==> final(self).value(v) == old(self).root_value(v) && final(self).gone(v) == old(self).gone(v) && (final(self).value(v).is_some() ==> final(self).same_var(old(self), v)) && (old(self).value(v).is_none() ==> final(self).var@[v].reason == old(self).var@[v].reason)""",
      ghost=[("before", "return ;", "proof { assert forall|v: int| #![trigger self.var@[v]] 1 <= v <= self.nv() implies self.value(v) == old(self).root_value(v) by { self.lem_level0(v); } }"),
        ("before", "for i in lim", "let ghost s1 = *self;")],
      loops={0: {"it": "it", "inv": """invariant it.iter.end == s1.trail@.len(), lim == s1.trail_lim@[0], lim < self.trail@.len(), 0 < s1.trail_lim@.len(), s1.wf(), self.heap_ok(),
            *self == (AssignStack { var: self.var, var_order: self.var_order, ..s1 }), self.var@.len() == s1.var@.len(),
            forall|j: int| lim <= j < i ==> cleared0(&self.var@[(#[trigger] s1.trail@[j]).var() as int], &s1.var@[s1.trail@[j].var() as int]) && self.var_order.has(s1.trail@[j].var() as int),
            forall|v: int| #![trigger s1.var_order.has(v)] s1.var_order.has(v) ==> self.var_order.has(v),
            forall|v: int| 0 <= v < self.var@.len() && !part(s1.trail@, lim as int, i as int, v) ==> #[trigger] self.var@[v] == s1.var@[v],
            forall|v: int| 0 <= v < self.var@.len() ==> (#[trigger] self.var@[v]).flags == s1.var@[v].flags && self.var@[v].level == s1.var@[v].level && self.var@[v].reason_saved == s1.var@[v].reason_saved,""",
            "top": "let ghost sa = *self; proof { assert(s1.trail@[i as int].wf()); assert(s1.lit_ok(s1.trail@[i as int])); assert(!part(s1.trail@, lim as int, i as int, s1.trail@[i as int].var() as int)); }",
            "bottom": """proof {
                assert forall|v: int| 0 <= v < self.var@.len() && !part(s1.trail@, lim as int, i + 1, v) implies #[trigger] self.var@[v] == s1.var@[v] by {
                    assert(s1.trail@[i as int].var() != v); assert(!part(s1.trail@, lim as int, i as int, v)); assert(sa.var@[v] == s1.var@[v]); }
                assert forall|j: int| lim <= j < i + 1 implies cleared0(&self.var@[(#[trigger] s1.trail@[j]).var() as int], &s1.var@[s1.trail@[j].var() as int]) && self.var_order.has(s1.trail@[j].var() as int) by { assert(s1.lit_ok(s1.trail@[j])); if j < i { assert(sa.var_order.has(s1.trail@[j].var() as int)); } }
                assert forall|v: int| #![trigger s1.var_order.has(v)] s1.var_order.has(v) implies self.var_order.has(v) by { assert(sa.var_order.has(v)); }
            }"""}},
      post="""proof { s1.lem_sandbox(self);
          assert forall|v: int| #[trigger] self.open_var(v) implies self.kept(v) by { assert(self.var@[v] == self.var@[v]);
              if s1.value(v).is_none() { assert(s1.open_var(v)); assert(s1.kept(v)); if s1.var_order.has(v) { assert(self.var_order.has(v)); } else { let i = choose|i: int| 0 <= i < s1.trail_saved@.len() && #[trigger] s1.trail_saved@[i].var() == v; assert(self.trail_saved@[i].var() == v); } }
              else { assert(s1.var@[v].level > 0); s1.lem_high(v, 0); let i = choose|i: int| s1.trail_lim@[0] <= i < s1.trail@.len() && #[trigger] s1.trail@[i].var() == v; assert(self.var_order.has(s1.trail@[i].var() as int)); } } }""")
    S = "assign::select"
    si = "impl VarSelectIF for AssignStack"
    f(S, "impl AssignStack", "select_var", into="AssignStack", nloops=1, spec="""requires old(self).wf(), old(self).queue_ok(), exists|v: int| old(self).open_var(v),
    ensures final(self).wf(), final(self).same_but_queue(old(self)), old(self).open_var(r as int), final(self).queue_but(r as int), final(self).trail_saved == old(self).trail_saved || final(self).trail_saved@.len() == 0""",
      loops={0: {"inv": """invariant self.wf(), self.queue_ok(), self.same_but_queue(old(self)), exists|v: int| old(self).open_var(v), old(self).wf(),
          forall|v: int| #![trigger self.open_var(v)] #![trigger old(self).open_var(v)] self.open_var(v) == old(self).open_var(v),
          self.trail_saved == old(self).trail_saved || self.trail_saved@.len() == 0,
        decreases self.trail_saved@.len(), self.var_order.alive(),""",
        "top": "let ghost sa = *self; proof { let v = choose|v: int| old(self).open_var(v); assert(self.open_var(v)); assert(self.kept(v)); }"}},
      ghost=[("after_stmt", "let vi =", """proof { sa.lem_queue_only(self);
            assert forall|w: int| #![trigger self.open_var(w)] #![trigger old(self).open_var(w)] self.open_var(w) == old(self).open_var(w) by { assert(sa.open_var(w) == old(self).open_var(w)); }
            assert forall|w: int| #[trigger] self.open_var(w) && w != vi implies self.kept(w) by { assert(sa.open_var(w)); assert(sa.kept(w)); } }"""),
        ("before", "return vi", "proof { assert(self.open_var(vi as int)); assert(old(self).open_var(vi as int)); }")])
    f(S, si, "select_decision_literal", into="AssignStack", subst=[("Lit :: from ( ( $$x ) )", "Lit :: from_vb ( ( $$x ) )", 1)], spec="""requires old(self).wf(), old(self).queue_ok(), exists|v: int| old(self).open_var(v),
    ensures final(self).wf(), final(self).same_but_queue(old(self)), final(self).lit_ok(r), old(self).open_var(r.var() as int), final(self).queue_but(r.var() as int), r.sign() == old(self).var@[r.var() as int].flags.phase, final(self).trail_saved == old(self).trail_saved || final(self).trail_saved@.len() == 0""")
    f(S, si, "update_order", into="AssignStack", spec="requires old(self).heap_ok(), 1 <= v < old(self).var_order.size(), ensures final(self).heap_ok(), " + frame + ", final(self).var_order.same_members(&old(self).var_order)")
    f(S, si, "rebuild_order", into="AssignStack", nloops=1, spec="requires old(self).heap_ok(), ensures final(self).heap_ok(), " + frame + ", forall|v: int| #![trigger final(self).var_order.has(v)] #![trigger final(self).open_var(v)] final(self).var_order.has(v) == final(self).open_var(v)",
      loops={0: {"it": "it", "inv": "invariant it.iter.end == self.var@.len(), self.heap_ok(), *self == (AssignStack { var_order: self.var_order, ..*old(self) }), forall|v: int| #![trigger self.var_order.has(v)] #![trigger self.open_var(v)] self.var_order.has(v) == (self.open_var(v) && v < vi)",
        "top": "let ghost sa = *self;",
        "bottom": "proof { assert forall|v: int| #![trigger self.var_order.has(v)] #![trigger self.open_var(v)] self.var_order.has(v) == (self.open_var(v) && v < vi + 1) by { assert(sa.open_var(v) == self.open_var(v)); assert(sa.var_order.has(v) == (sa.open_var(v) && v < vi)); } }"}},
      ghost=[("after", "self . clear_heap ( ) ;", "proof { assert forall|v: int| #![trigger self.var_order.has(v)] !self.var_order.has(v) by {} }")])
    f(T, "impl AssignStack", "truncate_trail_saved", into="AssignStack", spec="ensures r.is_ok(), *final(self) == (AssignStack { trail_saved: final(self).trail_saved, ..*old(self) }), final(self).trail_saved@ == (if len <= old(self).trail_saved@.len() { old(self).trail_saved@.take(len as int) } else { old(self).trail_saved@ })")
    f(T, ti, "reuse_saved_trail", into="AssignStack", nloops=1, subst=[("cdb : & impl ClauseDBIF", "cdb : & ClauseView", 1), ("let q = $$e ;", "let q = verif_any_u16 ( ) ;", 1), ("cdb [ $c ] . rank", "cdb . rank_of ( $c )"), ("cdb [ $c ] . lit0 ( )", "cdb . lit0_of ( $c )"),
          ("return self . truncate_trail_saved ( $$e ) ;", "let verif_r = self . truncate_trail_saved ( $$e ) ; return verif_r ;", 2),
          ("let _ = self . truncate_trail_saved ( $$e ) ;", "self . truncate_trail_saved ( $$e ) ;", 2)],
      drop=[("self . num_repropagation += 1 ;", "", "statistics counter")],
      spec="""requires old(self).wf(), old(self).queue_ok(),
    ensures final(self).wf(), final(self).queue_ok(), final(self).trail_lim@ == old(self).trail_lim@, final(self).eliminated == old(self).eliminated, final(self).num_vars == old(self).num_vars,
        old(self).trail@.len() <= final(self).trail@.len(), final(self).trail@.take(old(self).trail@.len() as int) == old(self).trail@, final(self).q_head == old(self).q_head""",
      pre="proof { old(self).lem_levels(); }",
      loops={0: {"inv": """invariant self.wf(), self.queue_ok(), i_rev <= self.trail_saved@.len(), self.trail_saved == old(self).trail_saved, dl == self.trail_lim@.len(),
            self.trail_lim@ == old(self).trail_lim@, self.eliminated == old(self).eliminated, self.num_vars == old(self).num_vars, self.q_head == old(self).q_head, self.var@.len() == old(self).var@.len(),
            old(self).trail@.len() <= self.trail@.len(), self.trail@.take(old(self).trail@.len() as int) == old(self).trail@,
            forall|k: int| i_rev <= k < self.trail_saved@.len() ==> self.value((#[trigger] self.trail_saved@[k]).var() as int).is_some(),
        decreases i_rev,""",
        "top": "let ghost sa = *self; proof { assert(self.lit_ok(self.trail_saved@[i_rev - 1])); }",
        "bottom": """proof { assert(self.trail@.take(old(self).trail@.len() as int) =~= sa.trail@.take(old(self).trail@.len() as int));
            assert forall|k: int| i_rev <= k < self.trail_saved@.len() implies self.value((#[trigger] self.trail_saved@[k]).var() as int).is_some() by { let w = self.trail_saved@[k].var() as int; assert(self.lit_ok(self.trail_saved@[k])); if w != lit.var() { assert(self.var@[w] == sa.var@[w]); } } }"""}},
      ghost=[("after", "self . insert_heap ( vi ) ;", "let ghost sb = *self; proof { sa.lem_queue_grew(self); }", 0), ("after", "self . insert_heap ( vi ) ;", "let ghost sb = *self; proof { sa.lem_queue_grew(self); }", 1),
        ("before", "return verif_r", "proof { sb.lem_truncate(self, i_rev + 1); }", 0), ("before", "return verif_r", "proof { sb.lem_truncate(self, i_rev + 1); }", 1),
        ("before", "self . clear_saved_trail", "let ghost sc = *self; proof { sa.lem_truncate(self, i_rev + 1); }", 0), ("before", "self . clear_saved_trail", "let ghost sc = *self; proof { sa.lem_truncate(self, i_rev + 1); }", 1),
        ("before", "return Err", "proof { sc.lem_cleared(self); }", 0), ("before", "return Err", "proof { sc.lem_cleared(self); }", 1),
        ("before", "self . trail_saved . clear", "let ghost se = *self;", 0), ("after", "self . trail_saved . clear ( ) ;", "proof { assert(self.trail_saved@ =~= se.trail_saved@.take(0)); se.lem_truncate(self, 0); }", 0)])
    return u
