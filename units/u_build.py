"""a fresh solver, a larger solver, a solver for a formula (C03, C04, C17)"""
import u_assign
import u_cdb
import u_cert
import u_load
from unit import Unit

RLIMIT = 100

STD = r"""
#[verifier::external_body]
pub fn verif_new_map() -> (r: LinkMap) ensures r.map() == Map::<(Lit, Lit), ClauseId>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn verif_fsub(a: f64, b: f64) -> f64 { a - b }
/// vec![0; n]
pub fn verif_zeros(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 {
    let mut v: Vec<usize> = Vec::new(); let mut k: usize = 0;
    while k < n invariant k <= n, v@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == 0, decreases n - k { v.push(0); k += 1; }
    v
}
/// vec![Vec::new(); n]
pub fn verif_empty_lists(n: usize) -> (r: Vec<Vec<(Lit, ClauseId)>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 {
    let mut v: Vec<Vec<(Lit, ClauseId)>> = Vec::new(); let mut k: usize = 0;
    while k < n invariant k <= n, v@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] v@[i])@.len() == 0, decreases n - k { v.push(Vec::new()); k += 1; }
    v
}
pub fn verif_same_cnf(c: &CNFDescription) -> (r: CNFDescription) ensures r == *c { CNFDescription { num_of_variables: c.num_of_variables, num_of_clauses: c.num_of_clauses } }
#[verifier::external_body]
pub fn verif_create() -> (r: Result<BufWriter, ()>) ensures r matches Ok(w) ==> w.bytes() == Seq::<u8>::empty() { unimplemented!() }
/// the words of a line as the header reader sees them: the words p and cnf, a count (parse::<usize>), anything else
pub enum Head { P, Cnf, Count(usize), Other }
#[verifier::external_body]
pub struct WordIter { s: String }
impl WordIter {
    pub uninterp spec fn left(&self) -> Seq<Head>;
    #[verifier::external_body]
    pub fn next_is_p(&mut self) -> (r: bool) ensures r == (old(self).left().len() > 0 && old(self).left()[0] is P), final(self).left() == (if old(self).left().len() > 0 { old(self).left().drop_first() } else { old(self).left() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_is_cnf(&mut self) -> (r: bool) ensures r == (old(self).left().len() > 0 && old(self).left()[0] is Cnf), final(self).left() == (if old(self).left().len() > 0 { old(self).left().drop_first() } else { old(self).left() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_count(&mut self) -> (r: Option<usize>) ensures match r { Some(n) => old(self).left().len() > 0 && old(self).left()[0] == Head::Count(n), None => !(old(self).left().len() > 0 && old(self).left()[0] is Count) }, final(self).left() == (if old(self).left().len() > 0 { old(self).left().drop_first() } else { old(self).left() }) { unimplemented!() }
}
impl LineBuf {
    #[verifier::external_body]
    pub fn head_words(&self) -> (r: WordIter) ensures r.left() == heads(self.line()) { unimplemented!() }
}
pub uninterp spec fn heads(l: Line) -> Seq<Head>;
/// stand-in for Path and PathBuf: what a file of that name holds, if it can be opened
#[verifier::external_body]
pub struct FilePath { s: String }
impl FilePath {
    pub uninterp spec fn text(&self) -> Option<Seq<Line>>;
    #[verifier::external_body]
    pub fn open(&self) -> (r: Result<LineReader, SolverError>) ensures match self.text() { Some(t) => r matches Ok(x) && x.rest() == t, None => r == Err::<LineReader, SolverError>(SolverError::IOError) } { unimplemented!() }
}
"""
STD_WHY = "HashMap::new is empty, vec![x; n] has n elements x, f64 subtraction gives some f64, a created file is empty; split_whitespace().next() and parse::<usize>() of the header reader by their documentation; File::open either fails or gives the lines of the file"

SPEC = r"""
/// a line `p cnf V C`
pub open spec fn header(l: Line) -> Option<(usize, usize)> {
    let h = heads(l);
    if h.len() >= 4 && h[0] is P && h[1] is Cnf && h[2] is Count && h[3] is Count { Some((h[2]->Count_0, h[3]->Count_0)) } else { None }
}
/// the first header and the lines after it
pub open spec fn preamble(ls: Seq<Line>) -> Option<(usize, usize, Seq<Line>)> decreases ls.len() {
    if ls.len() == 0 { None } else { match header(ls[0]) { Some((v, c)) => Some((v, c, ls.drop_first())), None => preamble(ls.drop_first()) } }
}
pub proof fn lem_saved_cleared(o: &AssignStack, n: &AssignStack) requires o.wf(), n.heap_ok(), n.same_but_queue(o), n.trail_saved@.len() == 0, forall|v: int| #[trigger] o.kept(v) <==> n.var_order.has(v) ensures n.wf(), o.queue_ok() ==> n.queue_ok() {
    assert forall|v: int| 0 <= v < n.var@.len() implies #[trigger] n.same_var(o, v) by { }
    o.lem_same(n);
    if o.queue_ok() { assert forall|v: int| #[trigger] n.open_var(v) implies n.kept(v) by { assert(o.open_var(v)); assert(o.kept(v)); } }
}
pub proof fn lem_new_var(o: &AssignStack, n: &AssignStack) requires o.wf(), n.heap_ok(), *n == (AssignStack { var: n.var, var_order: n.var_order, num_vars: n.num_vars, ..*o }), n.var@.len() == o.var@.len() + 1, forall|v: int| 0 <= v < o.var@.len() ==> #[trigger] n.var@[v] == o.var@[v], n.var@[o.nv() + 1].assign.is_none() ensures n.wf() {
    assert forall|i: int| 0 <= i < n.trail@.len() implies n.lit_ok(#[trigger] n.trail@[i]) && n.value(n.trail@[i].var() as int) == Some(n.trail@[i].sign()) && n.var@[n.trail@[i].var() as int].reason != AssignReason::None by { assert(o.lit_ok(o.trail@[i])); assert(n.var@[n.trail@[i].var() as int] == o.var@[n.trail@[i].var() as int]); }
    assert forall|v: int| 1 <= v <= n.nv() && (#[trigger] n.var@[v]).assign.is_some() && !n.on_trail(v) implies n.var@[v].level == 0 by { assert(v <= o.nv()); assert(n.var@[v] == o.var@[v]); assert(!o.on_trail(v)); }
    assert forall|i: int| 0 <= i < n.trail@.len() implies #[trigger] n.lev_at(i) by { assert(o.lev_at(i)); assert(o.lit_ok(o.trail@[i])); assert(n.var@[n.trail@[i].var() as int] == o.var@[n.trail@[i].var() as int]); }
    assert forall|i: int| 0 <= i < n.trail_saved@.len() implies n.lit_ok(#[trigger] n.trail_saved@[i]) && n.var@[n.trail_saved@[i].var() as int].reason_saved != AssignReason::None by { assert(o.lit_ok(o.trail_saved@[i])); assert(n.var@[n.trail_saved@[i].var() as int] == o.var@[n.trail_saved@[i].var() as int]); }
}
pub proof fn lem_fresh_db(d: &ClauseDB, nl: int) requires d.clause@.len() == 1, d.clause@[0].dead(), !d.clause@[0].flags.learnt, d.nl() == nl, 2 <= nl < 0x8000_0000, nl % 2 == 0, forall|w: int| 0 <= w < nl ==> (#[trigger] d.watch_cache@[w])@.len() == 0, d.binary_link.hash.map() == Map::<(Lit, Lit), ClauseId>::empty(), d.binary_link.list@.len() == nl, forall|w: int| 0 <= w < nl ==> (#[trigger] d.binary_link.list@[w])@.len() == 0,
        d.freelist@.len() == 0, d.num_clause == 0, d.num_bi_clause == 0, d.num_learnt == 0, d.certification_store.wf() ensures d.wf() {
    assert forall|w: int, c: ClauseId| 0 <= w < nl implies #[trigger] has_cid(d.watch_cache@[w]@, c) == watched(d.clause@, w, c) by { }
    assert forall|w: int, o: Lit, c: ClauseId| 0 <= w < nl implies #[trigger] has_lnk(d.binary_link.list@[w]@, o, c) == linked(d.clause@, w, o, c) by { }
    reveal_with_fuel(cnt, 2);
}
pub proof fn lem_grown_models(o: &Solver, n: &Solver) requires o.ready(), n.cdb.clause == o.cdb.clause, n.asg.nv() == o.asg.nv() + 1, n.asg.value(o.asg.nv() + 1).is_none(), forall|v: int| 0 <= v <= o.asg.nv() ==> #[trigger] n.asg.var@[v] == o.asg.var@[v] ensures n.same_models(o) {
    assert forall|m: Val| #[trigger] n.models(m) <==> o.models(m) by {
        if respects(m, n.asg) { assert forall|v: int| 1 <= v <= o.asg.nv() && (#[trigger] o.asg.var@[v]).assign.is_some() implies m(v) == o.asg.var@[v].assign.unwrap() by { assert(n.asg.var@[v] == o.asg.var@[v]); } }
        if respects(m, o.asg) { assert forall|v: int| 1 <= v <= n.asg.nv() && (#[trigger] n.asg.var@[v]).assign.is_some() implies m(v) == n.asg.var@[v].assign.unwrap() by { assert(v <= o.asg.nv()); assert(n.asg.var@[v] == o.asg.var@[v]); } }
    }
}
/// x occurs, as a variable, in the list
pub open spec fn mentions(v: Seq<Vec<i32>>, x: int) -> bool { exists|k: int, i: int| 0 <= k < v.len() && 0 <= i < v[k]@.len() && iabs(#[trigger] v[k]@[i] as int) == x }
pub open spec fn negatable(v: Seq<Vec<i32>>) -> bool { forall|k: int, i: int| 0 <= k < v.len() && 0 <= i < v[k]@.len() ==> #[trigger] v[k]@[i] > i32::MIN }
pub open spec fn top_of(c: Seq<i32>, n: int) -> bool { n >= 0 && (forall|i: int| 0 <= i < c.len() ==> iabs(#[trigger] c[i] as int) <= n) && (n == 0 || exists|i: int| 0 <= i < c.len() && iabs(#[trigger] c[i] as int) == n) }
/// the largest variable that occurs
pub open spec fn top_var(v: Seq<Vec<i32>>, n: int) -> bool { (forall|k: int, i: int| 0 <= k < v.len() && 0 <= i < v[k]@.len() ==> iabs(#[trigger] v[k]@[i] as int) <= n) && (n == 0 || mentions(v, n)) }
pub proof fn lem_strays(a: AssignStack, w: Seq<Tok>) requires a.nv() >= 0 ensures strays(a, w) <==> exists|i: int| 0 <= i < w.len() && (#[trigger] w[i] matches Tok::Num(x) && !(-a.nv() <= x <= a.nv())) {
    if strays(a, w) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] stray(a, w[i]); assert(w[i] matches Tok::Num(x) && !(-a.nv() <= x <= a.nv())); }
    if exists|i: int| 0 <= i < w.len() && (#[trigger] w[i] matches Tok::Num(x) && !(-a.nv() <= x <= a.nv())) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i] matches Tok::Num(x) && !(-a.nv() <= x <= a.nv())); assert(stray(a, w[i])); }
}
pub proof fn lem_unclean(a: AssignStack, v: Seq<Vec<i32>>) requires top_var(v, a.nv()) ensures (exists|k: int| 0 <= k < v.len() && !#[trigger] a.clean(v[k]@)) ==> exists|k: int, i: int| 0 <= k < v.len() && 0 <= i < v[k]@.len() && #[trigger] v[k]@[i] == 0 {
    if exists|k: int| 0 <= k < v.len() && !#[trigger] a.clean(v[k]@) { let k = choose|k: int| 0 <= k < v.len() && !#[trigger] a.clean(v[k]@); let i = choose|i: int| 0 <= i < v[k]@.len() && !a.in_range(#[trigger] v[k]@[i] as int); assert(iabs(v[k]@[i] as int) <= a.nv()); assert(v[k]@[i] == 0); }
}
/// what loading a text with v declared variables gives
pub open spec fn loaded(r: Result<Solver, SolverError>, config: &Config, v: int, w: Seq<Tok>) -> bool {
    match r {
        Ok(s) => s.ready() && s.asg.nv() == v && s.cdb.soft_limit == config.c_cls_lim && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i] matches Tok::Num(x) ==> -v <= x <= v)) && forall|m: Val| #[trigger] s.models(m) <==> sat_text(m, w),
        Err(SolverError::InvalidLiteral) => exists|i: int| 0 <= i < w.len() && (#[trigger] w[i] matches Tok::Num(x) && !(-v <= x <= v)),
        Err(SolverError::EmptyClause) => forall|m: Val| !#[trigger] sat_text(m, w),
        Err(_) => false,
    }
}
impl Solver {
    /// a solver for n variables about which nothing is known
    pub open spec fn blank(&self, n: int) -> bool { self.ready() && self.asg.nv() == n && self.cdb.clause@.len() == 1 && self.cdb.lbd_temp@[0] == 0 && forall|m: Val| #[trigger] self.models(m) }
    pub open spec fn fresh(&self, n: int) -> bool { self.blank(n) && self.asg.queue_ok() }
}
"""


def types(u):
    u_load.types(u)
    u.assume(STD, STD_WHY)
    u.struct("config", "Config", keep=["c_cls_lim", "use_certification", "vrw_dcy_rat", "cnf_file"], types={"cnf_file": "FilePath"})
    u.struct("types::cnf", "CNFReader", types={"reader": "LineReader"})
    u.enum("solver", "Certificate")
    u.text("pub type SolverResult = Result<Certificate, SolverError>;")
    u.text(SPEC)


def unit():
    u = Unit("build")
    types(u)
    A, D, L = u_assign.unit(), u_cdb.unit(), u_load.unit()
    u.uses(A, ["AssignStack::expand_heap", "AssignStack::make_var_eliminated", "AssignStack::clear_saved_trail", "AssignStack::cancel_until"])
    u.uses(D, ["ClauseDB::handle", "Clause::default", "CertificationStore::default"])
    u.uses(L, ["Solver::inject", "Solver::inject_from_vec"])
    f = u.fn
    H = "assign::heap"
    d0 = ":: core :: default :: Default :: default ( )"
    stat = "statistics, moving averages and search parameters (no contract reads them)"
    f(H, ".*Default for VarIdHeap", "default", into="VarIdHeap", sig="fn default() -> (r: VarIdHeap)", subst=[(d0, "Vec :: new ( )", 2)])
    f(H, "impl VarIdHeap", "new", into="VarIdHeap", subst=[("1 ..= n", "1 .. n + 1", 1)], nloops=1, spec="requires n < 0x3fff_ffff, ensures r.wf(), r.size() == n + 1, forall|v: int| 1 <= v <= n ==> #[trigger] r.has(v)",
      loops={0: {"it": "it", "inv": "invariant n < 0x3fff_ffff, it.iter.end == n + 1, heap@.len() == it.index() + 1, idxs@.len() == it.index() + 1, heap@[0] == 0, forall|p: int| 1 <= p < heap@.len() ==> #[trigger] heap@[p] == p, forall|p: int| 1 <= p < idxs@.len() ==> #[trigger] idxs@[p] == p,"}})
    V = "types::var"
    f(V, "impl Default for Var", "default", into="Var", sig="fn default() -> (r: Var)", spec="ensures r.assign.is_none(), r.level == 0, r.reason == AssignReason::None, r.reason_saved == AssignReason::None, !r.flags.eliminated")
    f(V, "impl Var", "new_vars", into="Var", subst=[("( $$r ) . map ( | n | { $$b } ) . collect :: < Vec < _ >> ( )", "{ let mut verif_r0 : Vec < Var > = Vec :: new ( ) ; for n in $$r { verif_r0 . push ( $$b ) ; } verif_r0 }", 1), (".. Default :: default ( )", ".. Var :: default ( )")], nloops=1,
      spec="requires n < 0x3fff_ffff, ensures r@.len() == n + 1, forall|i: int| 0 <= i <= n ==> (#[trigger] r@[i]).assign.is_none() && r@[i].level == i && r@[i].reason == AssignReason::None && r@[i].reason_saved == AssignReason::None && !r@[i].flags.eliminated",
      loops={0: {"it": "it", "inv": "invariant it.iter.end == n0 + 1, verif_r0@.len() == it.index(), forall|i: int| 0 <= i < it.index() ==> (#[trigger] verif_r0@[i]).assign.is_none() && verif_r0@[i].level == i && verif_r0@[i].reason == AssignReason::None && verif_r0@[i].reason_saved == AssignReason::None && !verif_r0@[i].flags.eliminated,"}}, pre="let ghost n0 = n;")
    S = "assign::stack"
    SD = [(f"{x} ,", "", stat) for x in ("num_reconflict : 0", "num_repropagation : 0", "num_rephase : 0", "bp_divergence_ema : Ema :: new ( 10 )", "best_phases : HashMap :: new ( )", "phase_age : 0", "stage_scale : 1", "num_propagation : 0", "assign_rate : ProgressASG :: default ( )", "dpc_ema : EmaSU :: new ( 100 )", "ppc_ema : EmaSU :: new ( 100 )", "cpr_ema : EmaSU :: new ( 100 )", "tick : 0", "assign_rate : ProgressASG :: instantiate ( config , cnf )")]
    f(S, "impl Default for AssignStack", "default", into="AssignStack", sig="fn default() -> (r: AssignStack)", drop=SD, spec="ensures r.trail@.len() == 0, r.trail_lim@.len() == 0, r.q_head == 0, r.root_level == 0, r.trail_saved@.len() == 0, r.eliminated@.len() == 0")
    SI = "impl Instantiate for AssignStack"
    f(S, SI, "instantiate", into="AssignStack", drop=SD, subst=[("1.0 - config . vrw_dcy_rat", "verif_fsub ( 1.0 , config . vrw_dcy_rat )")], spec="""requires cnf.num_of_variables < 0x3fff_ffff
    ensures r.wf(), r.queue_ok(), r.nv() == cnf.num_of_variables, r.num_vars == cnf.num_of_variables, r.trail_lim@.len() == 0, r.trail@.len() == 0, r.eliminated@.len() == 0, forall|v: int| 0 <= v <= r.nv() ==> (#[trigger] r.var@[v]).assign.is_none() && !r.var@[v].flags.eliminated && r.var@[v].level <= r.nv()""")
    B, BL, C, CS = "cdb::binary", "BinaryLinkDB", "cdb::db", "cdb::unsat_certificate"
    f(B, ".*Default for BinaryLinkDB", "default", into=BL, sig="fn default() -> (r: BinaryLinkDB)", subst=[("hash : " + d0, "hash : verif_new_map ( )"), ("list : " + d0, "list : Vec :: new ( )")])
    f(B, "impl Instantiate for BinaryLinkDB", "instantiate", into=BL, subst=[("HashMap :: new ( )", "verif_new_map ( )", 1), (":: alloc :: vec :: from_elem ( Vec :: new ( ) , $x )", "verif_empty_lists ( $x )", 1)],
      spec="requires cnf.num_of_variables < 0x3fff_ffff, ensures r.hash.map() == Map::<(Lit, Lit), ClauseId>::empty(), r.list@.len() == 2 * (cnf.num_of_variables + 1), forall|w: int| 0 <= w < r.list@.len() ==> (#[trigger] r.list@[w])@.len() == 0")
    f(CS, "impl Instantiate for CertificationStore", "instantiate", into="CertificationStore", subst=[("let cert : PathBuf = config . io_odir . join ( & config . io_pfile ) ;", "", 1), ("File :: create ( & cert )", "verif_create ( )", 1), ("Vec :: with_capacity ( DUMP_INTERVAL + 1024 )", "Vec :: new ( )", 1), ("BufWriter :: new ( out )", "out", 1)],
      drop=[("target : Some ( cert ) ,", "", "the path of the file is not modelled")], spec="ensures r.wf(), r.active() ==> config.use_certification && r.out() == Seq::<u8>::empty()")
    CD = [(f"{x} ,", "", stat) for x in ("co_lbd_bound : 4", "bi_clause_completion_queue : Vec :: new ( )", "num_bi_clause_completion : 0", "lbd : ProgressLBD :: default ( )", "num_bi_learnt : 0", "num_lbd2 : 0", "num_reduction : 0", "num_reregistration : 0", "lb_entanglement : Ema2 :: new ( 1_000 ) . with_slow ( 80_000 ) . with_value ( 2.0 )", "reduction_threshold : 0.0", "eliminated_permanent : Vec :: new ( )", "lbd : ProgressLBD :: instantiate ( config , cnf )")]
    f(C, "impl Default for ClauseDB", "default", into="ClauseDB", sig="fn default() -> (r: ClauseDB)", drop=CD, spec="ensures r.freelist@.len() == 0, r.num_clause == 0, r.num_bi_clause == 0, r.num_learnt == 0")
    f(C, "impl Instantiate for ClauseDB", "instantiate", into="ClauseDB", drop=CD, nloops=1, subst=[("let mut watcher =", "let mut watcher : Vec < Vec < ( ClauseId , Lit ) > > =", 1), ("let mut clause =", "let mut clause : Vec < Clause > =", 1), ("ClauseDB { clause , $$b }", "let verif_r = ClauseDB { clause , $$b } ; verif_r", 1), ("WatchCache :: new ( )", "Vec :: new ( )"), (":: alloc :: vec :: from_elem ( 0 , $x + 1 )", "verif_zeros ( $x + 1 )", 1), ("Vec :: with_capacity ( 1 + nc )", "Vec :: new ( )")],
      spec="""requires cnf.num_of_variables < 0x3fff_ffff
    ensures r.wf(), r.clause@.len() == 1, r.nl() == 2 * (cnf.num_of_variables + 1), r.lbd_temp@.len() == cnf.num_of_variables + 1, forall|i: int| 0 <= i < r.lbd_temp@.len() ==> #[trigger] r.lbd_temp@[i] == 0, r.soft_limit == config.c_cls_lim, r.certification_store.active() ==> config.use_certification && r.certification_store.out() == Seq::<u8>::empty()""",
      loops={0: {"it": "it", "inv": "invariant nv < 0x3fff_ffff, it.iter.end == 2 * (nv + 1), watcher@.len() == it.index(), forall|w: int| 0 <= w < watcher@.len() ==> (#[trigger] watcher@[w])@.len() == 0,"}}, ghost=[("before", "verif_r", "proof { lem_fresh_db(&verif_r, 2 * (nv as int + 1)); }", 1)])
    ST = "state"
    TD = [(f"{x} ,", "", stat) for x in ("config : config . clone ( )", "restart : RestartManager :: instantiate ( config , cnf )", "stm : StageManager :: instantiate ( config , cnf )", "time_limit : config . c_timeout", "progress_report_rows : PROGRESS_REPORT_ROWS + CDB_HEATMAP_ROWS * ( config . show_cdb_heatmap as usize )")] + [(".. State :: default ( )", "", stat), ("self [ Stat :: Restart ] += 1 ;", "", stat), ("self . restart . handle ( SolverEvent :: Restart ) ;", "", stat)]
    f(ST, "impl Instantiate for State", "instantiate", into="State", drop=TD, subst=[("cnf . clone ( )", "verif_same_cnf ( cnf )", 2)], spec="ensures r.cnf == *cnf, r.target == *cnf")
    f(ST, "impl Instantiate for State", "handle", into="State", drop=TD, spec="""requires old(self).cnf.num_of_variables < usize::MAX, old(self).target.num_of_variables < usize::MAX
    ensures final(self).cnf.num_of_variables == old(self).cnf.num_of_variables + (if e is NewVar { 1int } else { 0 }), final(self).target.num_of_variables == old(self).target.num_of_variables + (if e is NewVar { 1int } else { 0 })""")
    SB, SS = "solver::build", "impl SatSolverIF for Solver"
    f(SB, "impl Instantiate for Solver", "instantiate", into="Solver", spec="requires cnf.num_of_variables < 0x3fff_ffff, ensures r.fresh(cnf.num_of_variables as int), r.cdb.soft_limit == config.c_cls_lim, r.state.cnf == *cnf, r.asg.trail@.len() == 0, r.asg.eliminated@.len() == 0")
    f(S, SI, "handle", into="AssignStack", drop=[("self . stage_scale = scale ;", "", stat)], spec="""requires e is NewVar || e is Stage || e is Reinitialize || e is Conflict || e is Eliminate, old(self).wf(), e is NewVar ==> old(self).nv() < 0x3fff_fffe && old(self).num_vars == old(self).nv(),
        e matches SolverEvent::Eliminate(vi) ==> old(self).queue_ok() && 1 <= vi <= old(self).nv() && old(self).value(vi as int).is_none() && old(self).trail_lim@.len() == 0
    ensures final(self).wf(),
        e is NewVar ==> final(self).nv() == old(self).nv() + 1 && final(self).num_vars == old(self).num_vars + 1 && final(self).value(old(self).nv() + 1).is_none() && !final(self).gone(old(self).nv() + 1) && final(self).var@[old(self).nv() + 1].level == 0
            && (forall|v: int| 0 <= v <= old(self).nv() ==> #[trigger] final(self).var@[v] == old(self).var@[v]) && (forall|v: int| v != old(self).nv() + 1 ==> #[trigger] final(self).var_order.has(v) == old(self).var_order.has(v))
            && *final(self) == (AssignStack { var: final(self).var, var_order: final(self).var_order, num_vars: final(self).num_vars, ..*old(self) }),
        e is Stage ==> final(self).same_but_queue(old(self)) && final(self).trail_saved@.len() == 0 && (old(self).queue_ok() ==> final(self).queue_ok()),
        e is Reinitialize ==> final(self).trail_lim@.len() == 0 && final(self).trail_saved@.len() == 0 && final(self).trail@ == old(self).root_trail() && (old(self).queue_ok() ==> final(self).queue_ok()),
        e is Conflict ==> *final(self) == *old(self),
        e matches SolverEvent::Eliminate(vi) ==> final(self).queue_ok() && final(self).gone(vi as int) && final(self).trail@ == old(self).trail@ && final(self).trail_lim@ == old(self).trail_lim@ && forall|v: int| 0 <= v < final(self).var@.len() && v != vi ==> #[trigger] final(self).var@[v] == old(self).var@[v]""",
      ghost=[("after_stmt", "self . var . push", "proof { lem_new_var(old(self), self); }"), ("after_stmt", "self . clear_saved_trail ( )", "proof { lem_saved_cleared(old(self), self); }", 0), ("before", "self . clear_saved_trail ( )", "let ghost s1 = *self;", 1), ("after_stmt", "self . clear_saved_trail ( )", "proof { lem_saved_cleared(&s1, self); }", 1)])
    f(SB, SS, "add_var", into="Solver", spec="""requires old(self).ready(), old(self).asg.nv() < 0x3ffe_ffff
    ensures final(self).ready(), r == old(self).asg.nv() + 1, forall|n: int| #[trigger] old(self).blank(n) ==> final(self).blank(n + 1), final(self).asg.nv() == old(self).asg.nv() + 1, final(self).same_models(old(self)), final(self).cdb.clause == old(self).cdb.clause, final(self).cdb.lbd_temp@.len() == old(self).cdb.lbd_temp@.len() + 1, final(self).cdb.lbd_temp@[0] == old(self).cdb.lbd_temp@[0], final(self).cdb.soft_limit == old(self).cdb.soft_limit,
        final(self).asg.value(r as int).is_none(), forall|v: int| 0 <= v <= old(self).asg.nv() ==> #[trigger] final(self).asg.var@[v] == old(self).asg.var@[v]""", subst=[("asg . num_vars as VarId", "{ let verif_r = asg . num_vars as VarId ; verif_r }", 1)], pre="let ghost o = *self; proof { assert(o.cdb.lbd_temp@.len() > 0); }", ghost=[("before", "verif_r }", "proof { lem_grown_models(&o, self); assert(self.asg.levels_below(self.cdb.lbd_temp@.len() as int)) by { assert forall|v: int| 0 <= v < self.asg.var@.len() implies (#[trigger] self.asg.var@[v]).level < self.cdb.lbd_temp@.len() by { if v <= o.asg.nv() { assert(self.asg.var@[v] == o.asg.var@[v]); } } } }")])
    N = "types::cnf"
    f(N, r"impl < V : AsRef < \[ i32 \] >> From < & \[ V \] > for CNFDescription", "from", into="CNFDescription", sig="fn from_lists(vec: &[Vec<i32>]) -> (r: CNFDescription)", nowhere=True, nloops=2,
      subst=[("$x . as_ref ( ) . iter ( ) . map ( | l | l . abs ( ) ) . max ( ) . unwrap_or ( 0 )", "verif_max ( & { let mut verif_r1 : Vec < i32 > = Vec :: new ( ) ; for l in $x . iter ( ) { verif_r1 . push ( verif_iabs ( * l ) ) ; } verif_r1 } )", 1),
             ("vec . iter ( ) . map ( | clause | $x ( $$a ) ) . max ( ) . unwrap_or ( 0 ) as usize", "verif_max ( & { let mut verif_r0 : Vec < i32 > = Vec :: new ( ) ; for clause in vec . iter ( ) { verif_r0 . push ( $x ( $$a ) ) ; } verif_r0 } ) as usize", 1)],
      drop=[(", pathname : CNFIndicator :: LitVec ( vec . len ( ) )", "", "the origin of the formula is shown to the user only")],
      spec="requires negatable(vec@), vec@.len() < 0x8000_0000, ensures top_var(vec@, r.num_of_variables as int), r.num_of_clauses == vec@.len()",
      pre="let ghost mut g0: Seq<i32> = Seq::empty(); let ghost mut g1: Seq<i32> = Seq::empty();",
      loops={0: {"it": "it", "inv": "invariant negatable(vec@), verif_r0@.len() == it.index(), it.index() <= vec@.len(), forall|k: int| 0 <= k < verif_r0@.len() ==> top_of(vec@[k]@, #[trigger] verif_r0@[k] as int),", "top": "let ghost k0 = it.index() as int; let ghost b0 = verif_r0@; let ghost cl = vec@[k0]@;",
                 "bottom": "proof { let x = verif_r0@[k0]; assert forall|i: int| 0 <= i < cl.len() implies iabs(#[trigger] cl[i] as int) <= x by { assert(g1[i] <= x); } if x != 0 { assert(g1.len() > 0); let i = choose|i: int| 0 <= i < g1.len() && g1[i] == x; assert(iabs(cl[i] as int) == x); } else { } assert(x >= 0) by { if g1.len() > 0 { assert(g1[0] <= x); } } }"},
             1: {"it": "iu", "inv": "invariant 0 <= k0 < vec@.len(), negatable(vec@), clause@ == vec@[k0]@, iu.index() <= clause@.len(), verif_r1@.len() == iu.index(), forall|i: int| 0 <= i < verif_r1@.len() ==> (#[trigger] verif_r1@[i]) == iabs(clause@[i] as int),", "top": "assert(vec@[k0]@[iu.index() as int] > i32::MIN);"}},
      ghost=[("before", "verif_r1 }", "proof { g1 = verif_r1@; }"), ("before", "verif_r0 }", "proof { g0 = verif_r0@; }"),
             ("before", "CNFDescription {", "proof { assert(top_var(vec@, num_of_variables as int)) by { assert forall|k: int, i: int| 0 <= k < vec@.len() && 0 <= i < vec@[k]@.len() implies iabs(#[trigger] vec@[k]@[i] as int) <= num_of_variables by { assert(top_of(vec@[k]@, g0[k] as int)); assert(g0[k] <= num_of_variables); } if num_of_variables != 0 { let k = choose|k: int| 0 <= k < g0.len() && g0[k] == num_of_variables; assert(top_of(vec@[k]@, g0[k] as int)); let i = choose|i: int| 0 <= i < vec@[k]@.len() && iabs(#[trigger] vec@[k]@[i] as int) == num_of_variables; assert(mentions(vec@, num_of_variables as int)); } } }")])
    f(N, r"impl TryFrom < & Path > for CNFReader", "try_from", into="CNFReader", sig="fn try_from(path: &FilePath) -> (r: Result<CNFReader, SolverError>)", nloops=1,
      subst=[("let pathname = if $$a . is_empty ( ) $b else $c ;", "", 1), ("File :: open ( path ) . map_or ( Err ( SolverError :: IOError ) , Ok )", "path . open ( )", 1), ("BufReader :: new ( fs )", "fs", 1), ("String :: new ( )", "LineBuf :: new ( )", 1), ("buf . split_whitespace ( )", "buf . head_words ( )", 1),
             ('iter . next ( ) == Some ( "p" )', "iter . next_is_p ( )"), ('iter . next ( ) == Some ( "cnf" )', "iter . next_is_cnf ( )"), ("iter . next ( ) . and_then ( | s | s . parse :: < usize > ( ) . ok ( ) )", "iter . next_count ( )")],
      drop=[(", pathname : CNFIndicator :: File ( pathname )", "", "the origin of the formula is shown to the user only"), ("{ :: std :: io :: _print ( format_args ! ( $$a ) ) ; } ;", "", "prints")],
      spec="""ensures match path.text() { Some(ls) => match preamble(ls) { Some((v, c, rest)) => r matches Ok(x) && x.cnf.num_of_variables == v && x.cnf.num_of_clauses == c && x.reader.rest() == rest, None => r == Err::<CNFReader, SolverError>(SolverError::IOError) }, None => r == Err::<CNFReader, SolverError>(SolverError::IOError) }""",
      loops={0: {"inv": "invariant_except_break !found_valid_header, preamble(reader.rest()) == preamble(path.text().unwrap()), ensures found_valid_header ==> preamble(path.text().unwrap()) == Some((nv, nc, reader.rest())), !found_valid_header ==> preamble(path.text().unwrap()).is_none(), decreases reader.rest().len(),", "top": "let ghost r0 = reader.rest();"}})
    f(SB, "impl < V > TryFrom.*", "try_from", into="Solver", sig="fn try_from(config: Config, vec: &[Vec<i32>]) -> (r: Result<Solver, SolverResult>)", nowhere=True,
      subst=[("CNFDescription :: from ( vec )", "CNFDescription :: from_lists ( vec )", 1), ("Solver :: instantiate ( $$x ) . inject_from_vec ( vec )", "{ let verif_s = Solver :: instantiate ( $$x ) ; Solver :: inject_from_vec ( verif_s , vec ) }", 1)],
      spec="""requires negatable(vec@), vec@.len() < 0x7fff_fffd, forall|k: int, i: int| 0 <= k < vec@.len() && 0 <= i < vec@[k]@.len() ==> iabs(#[trigger] vec@[k]@[i] as int) < 0x3fff_ffff
    ensures r matches Ok(s) ==> s.ready() && top_var(vec@, s.asg.nv()) && s.cdb.soft_limit == config.c_cls_lim && forall|m: Val| #[trigger] s.models(m) <==> sat_list(m, lists(vec@)),
        r matches Err(e) ==> e == Err::<Certificate, SolverError>(SolverError::InvalidLiteral) && (exists|k: int, i: int| 0 <= k < vec@.len() && 0 <= i < vec@[k]@.len() && #[trigger] vec@[k]@[i] == 0) || e == Err::<Certificate, SolverError>(SolverError::EmptyClause) && forall|m: Val| !#[trigger] sat_list(m, lists(vec@))""",
      ghost=[("before", "Solver :: inject_from_vec", "proof { lem_unclean(verif_s.asg, vec@); assert forall|m: Val| #[trigger] sat_list(m, lists(vec@)) implies verif_s.models(m) by { } }")])
    f(SB, SS, "build", into="Solver", sig="fn build(config: &Config) -> (r: Result<Solver, SolverError>)", subst=[("Path :: new ( & config . cnf_file )", "& config . cnf_file", 1), ("Solver :: instantiate ( $$x ) . inject ( reader )", "{ let verif_s = Solver :: instantiate ( $$x ) ; Solver :: inject ( verif_s , reader ) }", 1)],
      spec="""requires config.cnf_file.text() matches Some(ls) && preamble(ls) matches Some((v, c, rest)) ==> v < 0x3fff_ffff && words(rest).len() < 0x7fff_fffc
    ensures match config.cnf_file.text() { Some(ls) => match preamble(ls) { Some((v, c, rest)) => loaded(r, config, v as int, words(rest)), None => r == Err::<Solver, SolverError>(SolverError::IOError) }, None => r == Err::<Solver, SolverError>(SolverError::IOError) }""",
      ghost=[("before", "Solver :: inject (", "proof { lem_strays(verif_s.asg, words(reader.rest())); assert forall|m: Val| #[trigger] sat_text(m, words(reader.rest())) implies verif_s.models(m) by { } }")])
    return u
