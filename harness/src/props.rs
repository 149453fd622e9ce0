//! One observer per property, driven by the random walks.
use crate::{hx::*, oracle, rng::Rng, run::Case, walk::*};
use splr::{
    assign::{AssignIF, AssignReason, AssignStack, PropagateIF, VarManipulateIF},
    cdb::{ClauseDB, ClauseDBIF},
    processor::{EliminateIF, Eliminator},
    solver::*,
    types::*,
};
use std::collections::HashSet;

fn go(r: &Rng, c: &mut Case, p: &Plan, w: &mut dyn Watch) -> Result<(), String> {
    let (busy, log) = walk(r, p, w)?;
    c.nontrivial = busy;
    c.mark(&log);
    c.note = log;
    Ok(())
}
fn sorted(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort();
    c
}

// ---------------------------------------------------------------- C06
#[derive(Default)]
struct Sound {
    pre: Option<Models>,
    old: HashSet<Vec<i32>>,
    val: Vec<Option<bool>>,
}
impl Watch for Sound {
    fn before(&mut self, w: &mut World, o: &Op) -> Result<(), String> {
        if let Op::Load = o {
            return Ok(());
        }
        if let Op::Decide(..) | Op::Cancel(_) | Op::Propagate = o {
            if !matches!(o, Op::Propagate) || w.s.asg.decision_level() > 0 {
                return Ok(());
            }
        }
        let h = held(&w.s.asg, &w.s.cdb);
        self.pre = Some(Models::of(&h, w.n));
        self.old = h.iter().map(|c| sorted(c)).collect();
        if let Op::Learn(cc) = o {
            let cl = conflict_lits(&w.s.cdb, cc)?;
            if cl.iter().any(|l| value(&w.s.asg, *l) != Some(false)) {
                return Err(format!("the conflict clause {cl:?} is not false"));
            }
            self.val = (0..=w.n).map(|v| if v == 0 { None } else { w.s.asg.assign(v) }).collect();
        }
        Ok(())
    }
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        if let Op::Load = o {
            if r == Out::Unsat && !Models::of(&w.f, w.n).is_empty() {
                return Err("loading reports unsatisfiability of a satisfiable formula".into());
            }
            return Ok(());
        }
        let Some(pre) = self.pre.take() else {
            return Ok(());
        };
        if r == Out::Unsat {
            if !pre.is_empty() {
                return Err(format!("{o:?} reports unsatisfiability, but the clauses held have a model"));
            }
            return Ok(());
        }
        let h = held(&w.s.asg, &w.s.cdb);
        let mut fresh: Vec<Vec<i32>> = Vec::new();
        for c in &h {
            if !self.old.contains(&sorted(c)) {
                if !pre.implies(c) {
                    return Err(format!("{o:?} derived {c:?}, which does not follow from the clauses held"));
                }
                fresh.push(c.clone());
            }
        }
        if let (Op::Learn(_), Out::Learnt) = (o, r) {
            let asg = &w.s.asg;
            for c in &fresh {
                let v = |l: i32| self.val[l.unsigned_abs() as usize].map(|b| b == (l > 0));
                if c.iter().any(|l| v(*l) != Some(false)) {
                    return Err(format!("the learnt clause {c:?} was not false under the conflicting assignment"));
                }
                if c.len() > 1 {
                    let t = c.iter().filter(|l| value(asg, **l) == Some(true)).count();
                    let u = c.iter().filter(|l| value(asg, **l).is_none()).count();
                    if !(t == 1 && u == 0 || t == 0 && u >= 1) {
                        return Err(format!("after the backjump the learnt clause {c:?} has {t} true and {u} open literals"));
                    }
                    if t == 1 && value(asg, c[0]) != Some(true) {
                        return Err(format!("the learnt clause {c:?} asserts a literal that is not its first"));
                    }
                }
            }
            if fresh.len() > 1 {
                return Err(format!("one conflict taught {fresh:?}"));
            }
        }
        Ok(())
    }
}
pub fn c06(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let eliminate = r.chance(1, 3);
    go(r, c, &Plan { nmin: 3, nmax: 12, steps: 160, eliminate, database: true, limit: 0 }, &mut Sound::default())
}

// ---------------------------------------------------------------- C07
#[derive(Default)]
struct Elim {
    pre: Option<(Models, Vec<usize>)>,
    input: Option<Models>,
    count: usize,
}
fn extension(w: &mut World, full: &Models) -> Result<(), String> {
    // every assignment of the remaining variables that satisfies what is left extends to a model of the input
    let left = held(&w.s.asg, &w.s.cdb);
    let m = Models::of(&left, w.n);
    let dead: HashSet<usize> = w.dead().into_iter().collect();
    let all: Vec<usize> = m.iter().filter(|x| dead.iter().all(|v| (x >> (v - 1)) & 1 == 0)).collect();
    let step = all.len() / 12 + 1;
    for x in all.iter().step_by(step) {
        let mut a = w.s.asg.clone();
        for v in 1..=w.n {
            if !dead.contains(&v) && a.assign(v).is_none() {
                a.assign_at_root_level(Lit::from((v, (x >> (v - 1)) & 1 == 1))).map_err(|e| format!("assigning: {e:?}"))?;
            }
        }
        let before: Vec<Option<bool>> = (0..=w.n).map(|v| a.assign(v)).collect();
        let ext = a.extend_model(&mut w.s.cdb);
        let mut y = 0usize;
        for v in 1..=w.n {
            if !dead.contains(&v) && ext[v] != before[v] {
                return Err(format!("extending the model changes the remaining variable {v}"));
            }
            match ext[v] {
                Some(true) => y |= 1 << (v - 1),
                Some(false) => (),
                None => return Err(format!("the extended model has no value for variable {v}")),
            }
        }
        if !full.has(y) {
            return Err(format!("the remaining formula holds under {:?}, its extension {:?} violates the formula before elimination", model_of(*x, w.n), model_of(y, w.n)));
        }
    }
    Ok(())
}
impl Watch for Elim {
    fn before(&mut self, w: &mut World, o: &Op) -> Result<(), String> {
        if let Op::Simplify = o {
            self.pre = Some((Models::of(&held(&w.s.asg, &w.s.cdb), w.n), w.dead()));
            if self.input.is_none() {
                self.input = Some(Models::of(&w.f, w.n));
            }
        }
        Ok(())
    }
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        let Some((pre, gone)) = self.pre.take() else {
            return Ok(());
        };
        let Op::Simplify = o else {
            return Ok(());
        };
        if r == Out::Unsat {
            if !pre.is_empty() {
                return Err("simplification reports unsatisfiability, but the clauses held have a model".into());
            }
            return Ok(());
        }
        let new: Vec<usize> = w.dead().into_iter().filter(|v| !gone.contains(v)).collect();
        self.count += new.len();
        let left = held(&w.s.asg, &w.s.cdb);
        if let Some(c) = left.iter().find(|c| c.iter().any(|l| w.dead().contains(&(l.unsigned_abs() as usize)))) {
            return Err(format!("after eliminating {new:?} the clause {c:?} is still held"));
        }
        let post = Models::of(&left, w.n);
        if !pre.project(&new).same(&post) {
            let x = (0..1 << w.n).find(|x| pre.project(&new).has(*x) != post.has(*x)).unwrap();
            return Err(format!(
                "eliminating {new:?} changed the formula over the other variables: {:?} {} before and {} after",
                model_of(x, w.n),
                if pre.project(&new).has(x) { "was possible" } else { "was impossible" },
                if post.has(x) { "is possible" } else { "is impossible" }
            ));
        }
        let full = self.input.take().unwrap();
        let res = extension(w, &full);
        self.input = Some(full);
        res
    }
}
/// resolving two random clauses on a variable; eliminating one variable directly
#[cfg(feature = "hooks")]
fn resolve(r: &Rng, c: &mut Case) -> Result<(), String> {
    use splr::processor::verif_merge;
    let n = 2 + r.below(9);
    let mut s = empty_solver(n, &quiet());
    let v = 1 + r.below(n);
    let mut ids = Vec::new();
    let mut cls = Vec::new();
    for sign in [1i32, -1] {
        let mut k: Vec<i32> = vec![sign * v as i32];
        for _ in 0..1 + r.below(6) {
            let u = 1 + r.below(n) as i32;
            let l = if r.chance(1, 2) || cls.iter().any(|d: &Vec<i32>| d.contains(&u)) && r.chance(3, 4) { u } else { -u };
            if !k.contains(&l) && !k.contains(&-l) {
                k.push(l);
            }
        }
        if k.len() < 2 {
            return Ok(());
        }
        r.shuffle(&mut k);
        let mut lits: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
        ids.push(s.cdb.new_clause(&mut s.asg, &mut lits, false).as_cid());
        cls.push(k);
    }
    c.note = format!("resolve {cls:?} on {v}");
    c.mark(&c.note.clone());
    c.nontrivial = true;
    if r.chance(1, 2) {
        ids.swap(0, 1);
    }
    let mut out = Vec::new();
    let (cost, len) = verif_merge(&mut s.asg, &mut s.cdb, ids[0], ids[1], v, &mut out);
    let mut e: Vec<i32> = cls.iter().flatten().copied().filter(|l| l.unsigned_abs() as usize != v).collect();
    e.sort();
    e.dedup();
    let taut = e.iter().any(|l| e.contains(&-l));
    let got = sorted(&nums(&out));
    if taut && len != 0 {
        return Err(format!("{cls:?} on {v}: the resolvent is a tautology, merge gives {got:?}"));
    }
    if !taut && (len != e.len() || got != e) {
        return Err(format!("{cls:?} on {v}: the resolvent is {e:?}, merge gives {len}: {got:?}"));
    }
    if cost != Some(if taut { 0 } else { e.len() }) {
        return Err(format!("{cls:?} on {v}: the resolvent has length {} (0: tautology), merge_cost gives {cost:?}", if taut { 0 } else { e.len() }));
    }
    Ok(())
}
/// the same with clauses far longer than the other shapes have; the models are not enumerated:
/// what is left must follow from what was there, and the other way round every resolvent over
/// the remaining variables must follow from what is left
fn far(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let n = 16 + r.below(75);
    let mut f: Vec<Vec<i32>> = Vec::new();
    let pivots = 1 + r.below(3);
    let part = |r: &Rng, k: usize, lo: usize, hi: usize, first: Option<i32>| {
        let mut cl: Vec<i32> = first.into_iter().collect();
        for _ in 0..k {
            let v = (lo + r.below(hi - lo + 1)) as i32;
            if !cl.contains(&v) && !cl.contains(&-v) {
                cl.push(if r.chance(1, 2) { v } else { -v });
            }
        }
        r.shuffle(&mut cl);
        cl
    };
    for p in 1..=pivots {
        // half of them get clauses over disjoint variables, so that their resolvents are not tautologies
        let apart = r.chance(1, 2);
        let mid = (pivots + 1 + n) / 2;
        for s in [1i32, -1] {
            for _ in 0..1 + r.below(3) {
                let k = *r.pick(&[1, 2, 3, n / 4, n / 2, n, 3 * n]);
                let (lo, hi) = if !apart { (pivots + 1, n) } else if s == 1 { (pivots + 1, mid) } else { (mid + 1, n) };
                f.push(part(r, k, lo, hi, Some(s * p as i32)));
            }
        }
    }
    let m = n * (8 + r.below(22)) / 10;
    for _ in 0..m {
        let k = *r.pick(&[2, 3, 3, 3, 3, 4]);
        f.push(part(r, k, pivots + 1, n, None));
    }
    r.shuffle(&mut f);
    let mut cfg = random_config(r);
    cfg.enable_eliminator = true;
    c.note = format!("far: {f:?}");
    c.mark(&f);
    let Some(mut s) = load(n, &f, &cfg)? else {
        return Ok(());
    };
    if s.asg.propagate_sandbox(&mut s.cdb).is_err() {
        return Ok(());
    }
    let before = held(&s.asg, &s.cdb);
    let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
    let res = e.simplify(&mut s.asg, &mut s.cdb, &mut s.state, false);
    s.asg.eliminated.append(e.eliminated_lits());
    match res {
        Ok(()) => (),
        Err(SolverError::OutOfMemory) => return Ok(()),
        Err(x) => {
            if oracle::sat_with(&before, &[], n) {
                return Err(format!("simplification reports {x:?} on a satisfiable formula: {before:?}"));
            }
            return Ok(());
        }
    }
    let after = held(&s.asg, &s.cdb);
    let gone: Vec<usize> = (1..=n).filter(|v| eliminated(&s.asg, *v)).collect();
    c.nontrivial = !gone.is_empty();
    let dead = |k: &[i32]| k.iter().any(|l| gone.contains(&(l.unsigned_abs() as usize)));
    if let Some(k) = after.iter().find(|k| dead(k)) {
        return Err(format!("after eliminating {gone:?} the clause {k:?} is still held"));
    }
    for k in after.iter().filter(|k| !before.contains(k)) {
        if !oracle::implied(&before, k) {
            return Err(format!("simplification adds {k:?}, which does not follow from {before:?}"));
        }
    }
    for k in before.iter().filter(|k| !dead(k) && !after.contains(k)) {
        if !oracle::implied(&after, k) {
            return Err(format!("eliminating {gone:?} loses {k:?}: {before:?} -> {after:?}"));
        }
    }
    let mut budget = 200;
    for v in &gone {
        let v = *v as i32;
        for p in before.iter().filter(|k| k.contains(&v)) {
            for q in before.iter().filter(|k| k.contains(&-v)) {
                let mut k: Vec<i32> = p.iter().chain(q).copied().filter(|l| l.abs() != v).collect();
                k.sort();
                k.dedup();
                if dead(&k) || k.iter().any(|l| k.contains(&-l)) || budget == 0 {
                    continue;
                }
                budget -= 1;
                if !oracle::implied(&after, &k) {
                    return Err(format!("eliminating {gone:?} loses the resolvent {k:?} of {p:?} and {q:?}: {before:?} -> {after:?}"));
                }
            }
        }
    }
    // models of what is left, found from random first guesses, extend to models of the input
    for _ in 0..3 {
        let mut a = s.asg.clone();
        let mut fix: Vec<i32> = Vec::new();
        let mut order: Vec<usize> = (1..=n).filter(|v| !gone.contains(v)).collect();
        r.shuffle(&mut order);
        if !oracle::sat_with(&after, &[], n) {
            break;
        }
        for v in order {
            let l = if r.chance(1, 2) { v as i32 } else { -(v as i32) };
            fix.push(l);
            if !oracle::sat_with(&after, &fix, n) {
                fix.pop();
                fix.push(-l);
            }
        }
        for l in &fix {
            if a.assign(l.unsigned_abs() as usize).is_none() {
                a.assign_at_root_level(lit(*l)).map_err(|e| format!("assigning: {e:?}"))?;
            }
        }
        let ext = a.extend_model(&mut s.cdb);
        let model: Vec<bool> = (0..=n).map(|v| ext[v] == Some(true)).collect();
        if let Some(k) = oracle::satisfies(&f, &model) {
            return Err(format!("{fix:?} satisfies what is left, its extension violates {:?} of {f:?}", f[k]));
        }
    }
    Ok(())
}
pub fn c07(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if r.chance(1, 4) {
        return far(r, c);
    }
    #[cfg(feature = "hooks")]
    if r.chance(1, 3) {
        return resolve(r, c);
    }
    let mut w = Elim::default();
    go(r, c, &Plan { nmin: 3, nmax: 12, steps: 100, eliminate: true, database: true, limit: 0 }, &mut w)?;
    c.nontrivial = w.count > 0;
    Ok(())
}

// ---------------------------------------------------------------- C08
pub fn c08(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let n = 3 + r.below(9);
    let f = small_cnf(r, n);
    let mut cfg = random_config(r);
    cfg.enable_eliminator = true;
    c.note = format!("{f:?}");
    c.mark(&f);
    let Some(mut s) = load(n, &f, &cfg)? else {
        return Ok(());
    };
    let ids = clauses(&s.cdb);
    #[cfg(feature = "hooks")]
    for a in &ids {
        for b in &ids {
            if a.cid == b.cid {
                continue;
            }
            match splr::processor::verif_subsuming(&mut s.cdb, a.cid, b.cid) {
                Ok(true) if !a.lits.iter().all(|l| b.lits.contains(l)) => return Err(format!("{:?} is reported as subsumed by {:?}", b.lits, a.lits)),
                Ok(false) if a.lits.iter().all(|l| b.lits.contains(l)) => c.mark(0),
                Err(l) if !(b.lits.contains(&-num(l)) && a.lits.iter().all(|k| *k == num(l) || b.lits.contains(k))) => {
                    return Err(format!("{} is reported as removable from {:?} because of {:?}", -num(l), b.lits, a.lits));
                }
                _ => (),
            }
        }
    }
    #[cfg(feature = "hooks")]
    for _ in 0..6 {
        // a fixed literal against a clause
        let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
        if ids.is_empty() {
            break;
        }
        let b = r.pick(&ids);
        match splr::processor::verif_subsuming(&mut s.cdb, ClauseId::from(lit(l)), b.cid) {
            Ok(true) if !b.lits.contains(&l) => return Err(format!("{:?} is reported as subsumed by [{l}]", b.lits)),
            Err(k) if !(num(k) == l && b.lits.contains(&-l)) => return Err(format!("{} is reported as removable from {:?} because of [{l}]", -num(k), b.lits)),
            _ => (),
        }
    }
    // some clauses are learnt ones
    for _ in 0..r.below(4) {
        if ids.is_empty() {
            break;
        }
        let mut k: Vec<i32> = r.pick(&ids).lits.clone();
        let v = 1 + r.below(n) as i32;
        if !k.contains(&v) && !k.contains(&-v) {
            k.push(if r.chance(1, 2) { v } else { -v });
        }
        r.shuffle(&mut k);
        if k.len() > 2 && k.iter().all(|l| s.asg.assign(l.unsigned_abs() as usize).is_none()) {
            let mut v: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
            s.cdb.new_clause(&mut s.asg, &mut v, true);
        }
    }
    if s.asg.propagate_sandbox(&mut s.cdb).is_err() {
        return Ok(());
    }
    let before = held(&s.asg, &s.cdb);
    let problem: HashSet<Vec<i32>> = clauses(&s.cdb).into_iter().filter(|c| !c.learnt).map(|c| sorted(&c.lits)).collect();
    let pre = Models::of(&before, n);
    let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
    e.prepare(&mut s.asg, &mut s.cdb, false);
    let mut ids: Vec<ClauseId> = clauses(&s.cdb).into_iter().map(|c| c.cid).collect();
    r.shuffle(&mut ids);
    for k in &ids {
        e.enqueue_clause(*k, &mut s.cdb[*k]);
    }
    let mut budget = *r.pick(&[10_000_000usize, 1000, 100, 30]);
    match e.backward_subsumption_check(&mut s.asg, &mut s.cdb, &mut budget) {
        Ok(()) => (),
        Err(x) => {
            if !pre.is_empty() {
                return Err(format!("subsumption reports {x:?} on a satisfiable formula: {f:?}"));
            }
            return Ok(());
        }
    }
    let after = held(&s.asg, &s.cdb);
    c.nontrivial = after.len() != before.len() || e.num_subsumed > 0;
    let post = Models::of(&after, n);
    if !pre.same(&post) {
        let x = (0..1 << n).find(|x| pre.has(*x) != post.has(*x)).unwrap();
        return Err(format!("simplifying {before:?} by subsumption gives {after:?}: {:?} {} a model", model_of(x, n), if pre.has(x) { "is no longer" } else { "has become" }));
    }
    // what the user supplied must still follow from clauses that reduction never removes
    let kept: Vec<Vec<i32>> = clauses(&s.cdb).into_iter().filter(|c| !c.learnt).map(|c| c.lits).chain(fixed(&s.asg).into_iter().map(|l| vec![l])).collect();
    let strong = Models::of(&kept, n);
    for p in &problem {
        if !strong.implies(p) {
            return Err(format!("the problem clause {p:?} was dropped in favour of a learnt clause: {after:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
#[derive(Default)]
struct Trail {
    trail: Vec<i32>,
    info: Vec<(Option<bool>, u32, AssignReason)>,
    lim: usize,
    phase: Vec<bool>,
}
fn info(w: &World) -> Vec<(Option<bool>, u32, AssignReason)> {
    (0..=w.n).map(|v| (w.s.asg.assign(v), w.s.asg.level(v), w.s.asg.reason(v))).collect()
}
fn trail_of(a: &AssignStack) -> Vec<i32> {
    a.stack_iter().map(|l| num(*l)).collect()
}
impl Watch for Trail {
    fn before(&mut self, w: &mut World, o: &Op) -> Result<(), String> {
        self.trail = trail_of(&w.s.asg);
        self.info = info(w);
        self.phase = (0..=w.n).map(|v| w.s.asg.var(v).is(FlagVar::PHASE)).collect();
        if let Op::Cancel(l) = o {
            self.lim = if *l < w.s.asg.decision_level() { w.s.asg.len_upto(*l) } else { self.trail.len() };
        }
        Ok(())
    }
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        if r == Out::Unsat || r == Out::Limit {
            return Ok(());
        }
        check_trail(&w.s.asg).map_err(|e| format!("after {o:?}: {e}"))?;
        let now = trail_of(&w.s.asg);
        let inf = info(w);
        match o {
            Op::Decide(l, _) => {
                let mut e = self.trail.clone();
                e.push(num(*l));
                if now != e {
                    return Err(format!("deciding {} turned the sequence {:?} into {now:?}", num(*l), self.trail));
                }
                for v in 1..=w.n {
                    if v != l.vi() && inf[v] != self.info[v] {
                        return Err(format!("deciding {} changed variable {v}: {:?} -> {:?}", num(*l), self.info[v], inf[v]));
                    }
                }
            }
            Op::Propagate => {
                if now.len() < self.trail.len() || now[..self.trail.len()] != self.trail {
                    return Err(format!("propagation rewrote the sequence {:?} to {now:?}", self.trail));
                }
                let new: HashSet<usize> = now[self.trail.len()..].iter().map(|l| l.unsigned_abs() as usize).collect();
                for v in 1..=w.n {
                    if !new.contains(&v) && inf[v] != self.info[v] {
                        return Err(format!("propagation changed variable {v}, which it did not assign: {:?} -> {:?}", self.info[v], inf[v]));
                    }
                }
            }
            Op::Cancel(l) => {
                if now != self.trail[..self.lim] {
                    return Err(format!("cancelling down to level {l} keeps {now:?} of {:?}", self.trail));
                }
                if w.s.asg.decision_level() > *l {
                    return Err(format!("cancelling down to level {l} leaves level {}", w.s.asg.decision_level()));
                }
                let kept: HashSet<usize> = now.iter().map(|l| l.unsigned_abs() as usize).collect();
                for v in 1..=w.n {
                    let on = self.trail.contains(&(v as i32)) || self.trail.contains(&-(v as i32));
                    if on && !kept.contains(&v) {
                        if inf[v].0.is_some() {
                            return Err(format!("cancelling leaves {v} assigned"));
                        }
                        let ph = w.s.asg.var(v).is(FlagVar::PHASE);
                        if Some(ph) != self.info[v].0 {
                            return Err(format!("cancelling {v} = {:?} remembers the polarity {ph}", self.info[v].0));
                        }
                    } else {
                        if inf[v] != self.info[v] {
                            return Err(format!("cancelling down to level {l} changed variable {v}: {:?} -> {:?}", self.info[v], inf[v]));
                        }
                        if w.s.asg.var(v).is(FlagVar::PHASE) != self.phase[v] {
                            return Err(format!("cancelling changed the preferred polarity of {v}, which stays"));
                        }
                    }
                }
            }
            _ => (),
        }
        Ok(())
    }
}
pub fn c09(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let big = r.chance(1, 3);
    let database = r.chance(1, 2);
    go(r, c, &Plan { nmin: 3, nmax: if big { 60 } else { 14 }, steps: if big { 400 } else { 160 }, eliminate: r.chance(1, 3), database, limit: 0 }, &mut Trail::default())
}

// ---------------------------------------------------------------- C10
#[derive(Default)]
struct Prop;
impl Watch for Prop {
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        match (o, r) {
            (Op::Propagate, Out::Done) => {
                check_propagated(&w.s.asg, &w.s.cdb)?;
                check_reasons(&w.s.asg, &w.s.cdb)
            }
            (Op::Propagate, Out::Conflict(cc)) => {
                let l = conflict_lits(&w.s.cdb, &cc)?;
                if l.iter().any(|l| value(&w.s.asg, *l) != Some(false)) {
                    return Err(format!("a conflict is reported with {l:?}, which is not false"));
                }
                check_reasons(&w.s.asg, &w.s.cdb)
            }
            (Op::Vivify | Op::Clear, Out::Done) => check_propagated(&w.s.asg, &w.s.cdb).map_err(|e| format!("after {o:?}: {e}")),
            (Op::Learn(_) | Op::Cancel(_), Out::Done | Out::Learnt) => check_reasons(&w.s.asg, &w.s.cdb).map_err(|e| format!("after {o:?}: {e}")),
            _ => Ok(()),
        }
    }
}
/// sandboxed propagation (used by vivification and simplification) on random databases
fn sandbox(r: &Rng, c: &mut Case) -> Result<(), String> {
    let n = 3 + r.below(30);
    let f = small_cnf(r, n);
    c.note = format!("sandbox {f:?}");
    c.mark(&f);
    let Some(mut s) = load(n, &f, &quiet())? else {
        return Ok(());
    };
    c.nontrivial = true;
    for _ in 0..r.below(30) + 3 {
        let res = s.asg.propagate_sandbox(&mut s.cdb);
        match res {
            Ok(()) => {
                check_propagated(&s.asg, &s.cdb)?;
                check_reasons(&s.asg, &s.cdb)?;
            }
            Err(cc) => {
                let l = conflict_lits(&s.cdb, &cc)?;
                if l.iter().any(|l| value(&s.asg, *l) != Some(false)) {
                    return Err(format!("a conflict is reported with {l:?}, which is not false ({f:?})"));
                }
                if s.asg.decision_level() == 0 {
                    return Ok(());
                }
                s.asg.backtrack_sandbox();
                continue;
            }
        }
        let open: Vec<usize> = (1..=n).filter(|v| s.asg.assign(*v).is_none()).collect();
        if open.is_empty() || r.chance(1, 6) {
            if s.asg.decision_level() == 0 {
                return Ok(());
            }
            s.asg.backtrack_sandbox();
            continue;
        }
        s.asg.assign_by_decision(Lit::from((*r.pick(&open), r.chance(1, 2))));
    }
    Ok(())
}
/// one clause with more literals than a 16-bit position can hold
fn wide(r: &Rng, c: &mut Case) -> Result<(), String> {
    let n = 65_530 + r.below(16);
    let sandboxed = r.chance(1, 2);
    c.note = format!("wide {n} {sandboxed}");
    c.mark(&c.note.clone());
    c.nontrivial = true;
    let mut s = empty_solver(n, &quiet());
    let cl: Vec<i32> = (1..=n as i32).collect();
    let _ = s.add_clause(&cl).map_err(|e| format!("{e:?}"))?;
    let last = 1 + r.below(n);
    for v in 1..=n {
        if v == last {
            continue;
        }
        s.asg.assign_by_decision(lit(-(v as i32)));
        let res = if sandboxed { s.asg.propagate_sandbox(&mut s.cdb) } else { s.asg.propagate(&mut s.cdb) };
        if res.is_err() {
            return Err(format!("a conflict on a clause of {n} literals, {} of them false", v - 1));
        }
        if s.asg.assign(last).is_some() {
            break;
        }
    }
    if s.asg.stack_len() != n || s.asg.assign(last) != Some(true) {
        return Err(format!("a clause of {n} literals, all but {last} false, after {} assignments: {last} is {:?}", s.asg.stack_len(), s.asg.assign(last)));
    }
    Ok(())
}
pub fn c10(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if c.index % 4096 == 7 {
        return wide(r, c);
    }
    if r.chance(1, 4) {
        return sandbox(r, c);
    }
    let big = r.chance(1, 3);
    let database = r.chance(1, 2);
    go(r, c, &Plan { nmin: 3, nmax: if big { 60 } else { 14 }, steps: if big { 300 } else { 160 }, eliminate: r.chance(1, 3), database, limit: 0 }, &mut Prop)
}

// ---------------------------------------------------------------- C11
#[derive(Default)]
struct Queue;
impl Watch for Queue {
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        if r == Out::Unsat || r == Out::Limit {
            return Ok(());
        }
        check_queue(&w.s.asg, true).map_err(|e| format!("after {o:?}: {e}"))
    }
}
/// queue operations alone, on many variables with random priorities
#[cfg(feature = "hooks")]
fn queue(r: &Rng, c: &mut Case) -> Result<(), String> {
    use splr::assign::VarSelectIF;
    let mut n = 1 + r.below(*r.pick(&[8, 40, 200]));
    let mut s = empty_solver(n, &quiet());
    s.asg.rebuild_order();
    let mut inside: HashSet<usize> = (1..=n).collect();
    let mut log = format!("queue of {n}: ");
    for k in 0..4 * n + 20 {
        match r.below(6) {
            0 | 1 if !inside.is_empty() => {
                let l = s.asg.select_decision_literal();
                log.push_str(&format!("take {} ", l.vi()));
                if !inside.remove(&l.vi()) {
                    return Err(format!("{log}: variable {} was not in the queue", l.vi()));
                }
            }
            2 => {
                let v = 1 + r.below(n);
                log.push_str(&format!("drop {v} "));
                s.asg.verif_remove_from_heap(v);
                inside.remove(&v);
            }
            3 => {
                let v = 1 + r.below(n);
                let a = r.below(1000) as f64 / 1000.0;
                log.push_str(&format!("weight {v} {a} "));
                s.asg.set_activity(v, a);
                s.asg.update_order(v);
            }
            4 if r.chance(1, 10) => {
                log.push_str("rebuild ");
                s.asg.rebuild_order();
                inside = (1..=n).collect();
            }
            5 if r.chance(1, 10) && n < 250 => {
                log.push_str("grow ");
                n = s.add_var();
                s.asg.rebuild_order();
                inside = (1..=n).collect();
            }
            _ => (),
        }
        check_queue(&s.asg, false).map_err(|e| format!("{log}: {e}"))?;
        let (_, idxs) = s.asg.verif_heap();
        let size = idxs[0] as usize;
        for v in 1..=n {
            if (idxs[v] as usize <= size) != inside.contains(&v) {
                return Err(format!("{log}: variable {v} should {}be in the queue", if inside.contains(&v) { "" } else { "not " }));
            }
        }
        if k % 64 == 0 {
            c.mark(&log);
        }
    }
    c.note = log;
    c.nontrivial = n > 2;
    Ok(())
}
pub fn c11(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    #[cfg(feature = "hooks")]
    if r.chance(1, 4) {
        return queue(r, c);
    }
    let big = r.chance(1, 3);
    let database = r.chance(1, 2);
    go(r, c, &Plan { nmin: 2, nmax: if big { 60 } else { 14 }, steps: if big { 300 } else { 160 }, eliminate: r.chance(1, 2), database, limit: 0 }, &mut Queue)
}

// ---------------------------------------------------------------- C12
struct Index(Vec<Vec<i32>>);
impl Watch for Index {
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        if r == Out::Unsat || r == Out::Limit {
            return Ok(());
        }
        check_index(&w.s.asg, &w.s.cdb).map_err(|e| format!("after {o:?}: {e}"))
    }
}
/// clause database operations alone
fn store(r: &Rng, c: &mut Case) -> Result<(), String> {
    let n = 3 + r.below(9);
    let mut s = empty_solver(n, &quiet());
    let mut live: Vec<(ClauseId, Vec<i32>, bool)> = Vec::new();
    let mut log = String::new();
    for _ in 0..10 + r.below(60) {
        let asg: &mut AssignStack = &mut s.asg;
        let cdb: &mut ClauseDB = &mut s.cdb;
        match r.below(7) {
            0..=2 => {
                let mut k: Vec<i32> = Vec::new();
                for _ in 0..2 + r.below(5) {
                    let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                    if !k.contains(&l) && !k.contains(&-l) {
                        k.push(l);
                    }
                }
                if k.len() < 2 {
                    continue;
                }
                let learnt = r.chance(1, 3);
                log.push_str(&format!("add {k:?}{} ", if learnt { " learnt" } else { "" }));
                let mut v: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
                let twin = live.iter().find(|(_, d, _)| d.len() == 2 && k.len() == 2 && sorted(d) == sorted(&k)).map(|x| x.0);
                match (cdb.new_clause(asg, &mut v, learnt), twin) {
                    (RefClause::Clause(i), None) => {
                        if live.iter().any(|x| x.0 == i) {
                            return Err(format!("{log}: the new clause got the number of a live one"));
                        }
                        live.push((i, k.clone(), learnt && k.len() > 2));
                    }
                    (RefClause::RegisteredClause(i), Some(j)) if i == j => (),
                    (x, t) => return Err(format!("{log}: adding {k:?} gives {x:?}; stored twin: {t:?}")),
                }
            }
            3 | 4 if !live.is_empty() => {
                let i = r.below(live.len());
                let (id, k, _) = live.swap_remove(i);
                log.push_str(&format!("remove {k:?} "));
                cdb.remove_clause(id);
            }
            5 if !live.is_empty() => {
                let i = r.below(live.len());
                let (id, k, learnt) = live[i].clone();
                let p = *r.pick(&k);
                let rest: Vec<i32> = k.iter().copied().filter(|l| *l != p).collect();
                log.push_str(&format!("drop {p} from {k:?} "));
                let twin = live.iter().find(|(_, d, _)| d.len() == 2 && rest.len() == 2 && sorted(d) == sorted(&rest)).map(|x| x.0);
                match cdb.transform_by_elimination(id, lit(p)) {
                    RefClause::UnitClause(l) if k.len() == 2 && num(l) == rest[0] => {
                        // the caller removes it
                        cdb.remove_clause(id);
                        live.swap_remove(i);
                    }
                    RefClause::RegisteredClause(j) if twin == Some(j) => {
                        cdb.remove_clause(id);
                        live.swap_remove(i);
                    }
                    RefClause::Clause(j) if j == id && twin.is_none() && k.len() > 2 => live[i] = (id, rest, learnt),
                    x => return Err(format!("{log}: shortening gives {x:?}")),
                }
            }
            6 if !live.is_empty() => {
                // move a watch, as propagation does
                let i = r.below(live.len());
                let (id, k, _) = live[i].clone();
                if k.len() < 3 {
                    continue;
                }
                let (o, w) = (r.below(2), 2 + r.below(k.len() - 2));
                log.push_str(&format!("rewatch {k:?} {o}->{w} "));
                cdb.transform_by_updating_watch(id, o, w, false);
            }
            _ => (),
        }
        check_index(asg, cdb).map_err(|e| format!("{log}: {e}"))?;
        let mut have: Vec<(ClauseId, Vec<i32>, bool)> = clauses(cdb).into_iter().map(|c| (c.cid, sorted(&c.lits), c.learnt)).collect();
        let mut want: Vec<(ClauseId, Vec<i32>, bool)> = live.iter().map(|(i, k, l)| (*i, sorted(k), *l)).collect();
        have.sort();
        want.sort();
        // a learnt clause may keep or lose its mark when it gets two literals
        for (h, w) in have.iter_mut().zip(want.iter_mut()) {
            if h.1.len() == 2 {
                h.2 = false;
                w.2 = false;
            }
        }
        if have != want {
            return Err(format!("{log}: stored {have:?}, expected {want:?}"));
        }
    }
    c.mark(&log);
    c.note = log;
    c.nontrivial = true;
    Ok(())
}
pub fn c12(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if r.chance(1, 2) {
        return store(r, c);
    }
    go(r, c, &Plan { nmin: 3, nmax: 14, steps: 140, eliminate: r.chance(1, 2), database: true, limit: 0 }, &mut Index(Vec::new()))
}

// ---------------------------------------------------------------- C14
#[derive(Default)]
struct Reduction {
    old: Vec<Cl>,
}
impl Watch for Reduction {
    fn before(&mut self, w: &mut World, o: &Op) -> Result<(), String> {
        if let Op::Reduce | Op::Clear = o {
            self.old = clauses(&w.s.cdb);
        }
        Ok(())
    }
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        match (o, r) {
            (Op::Reduce, Out::Done) => reduced(&self.old, &w.s.asg, &w.s.cdb),
            (Op::Clear, Out::Done) => {
                let now: HashSet<Vec<i32>> = clauses(&w.s.cdb).iter().map(|c| sorted(&c.lits)).collect();
                for c in &self.old {
                    let rest: Vec<i32> = sorted(&c.lits).into_iter().filter(|l| value(&w.s.asg, *l) != Some(false)).collect();
                    if !rest.iter().any(|l| value(&w.s.asg, *l) == Some(true)) && !now.contains(&rest) {
                        return Err(format!("clause {:?} was removed although no literal of it is fixed true", c.lits));
                    }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}
fn reduced(old: &[Cl], asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
    let reasons: HashSet<ClauseId> = asg.stack_iter().filter_map(|l| if let AssignReason::Implication(c) = asg.reason(l.vi()) { Some(c) } else { None }).collect();
    let now = clauses(cdb);
    for c in old {
        match now.iter().find(|d| d.cid == c.cid) {
            None => {
                if !c.learnt {
                    return Err(format!("reduction removed {:?}, which is not a learnt clause", c.lits));
                }
                if c.lits.len() < 3 {
                    return Err(format!("reduction removed the two-literal clause {:?}", c.lits));
                }
                if reasons.contains(&c.cid) {
                    return Err(format!("reduction removed {:?}, the reason of a current assignment", c.lits));
                }
            }
            Some(d) => {
                if d.lits != c.lits || d.learnt != c.learnt {
                    return Err(format!("reduction turned {:?} (learnt: {}) into {:?} (learnt: {})", c.lits, c.learnt, d.lits, d.learnt));
                }
            }
        }
    }
    if now.len() > old.len() || now.iter().any(|d| !old.iter().any(|c| c.cid == d.cid)) {
        return Err("reduction added a clause".into());
    }
    Ok(())
}
fn reduction(r: &Rng, c: &mut Case) -> Result<(), String> {
    let n = 10 + r.below(30);
    let mut s = empty_solver(n, &quiet());
    let mut log = String::new();
    for round in 0..1 + r.below(3) {
        // levels of earlier assignments give the clauses different ranks
        let mut vars: Vec<usize> = (1..=n).collect();
        r.shuffle(&mut vars);
        for v in vars.iter().take(n - 2) {
            s.asg.assign_by_decision(Lit::from((*v, r.chance(1, 2))));
        }
        let learn = |r: &Rng, s: &mut Solver, learnt: bool| {
            let mut k: Vec<i32> = Vec::new();
            for _ in 0..2 + r.below(8) {
                let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                if !k.contains(&l) && !k.contains(&-l) {
                    k.push(l);
                }
            }
            if k.len() > 1 {
                let mut v: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
                s.cdb.new_clause(&mut s.asg, &mut v, learnt);
            }
        };
        for _ in 0..5 + r.below(40) {
            let l = r.chance(2, 3);
            learn(r, &mut s, l);
        }
        s.asg.cancel_until(0);
        let old = clauses(&s.cdb);
        let t = match r.below(4) {
            0 => splr::cdb::ReductionType::RASonADD(r.below(30)),
            1 => splr::cdb::ReductionType::RASonALL(r.below(6) as f64, r.below(11) as f64 / 10.0),
            2 => splr::cdb::ReductionType::LBDonADD(r.below(30)),
            _ => splr::cdb::ReductionType::LBDonALL(r.below(6) as u16, r.below(11) as f64 / 10.0),
        };
        log.push_str(&format!("round {round}: {} clauses, {} learnt, {t:?}; ", old.len(), old.iter().filter(|c| c.learnt).count()));
        s.cdb.reduce(&mut s.asg, t);
        reduced(&old, &s.asg, &s.cdb).map_err(|e| format!("{log}: {e}; clauses {:?}", old.iter().map(|c| (&c.lits, c.learnt)).collect::<Vec<_>>()))?;
        check_index(&s.asg, &s.cdb).map_err(|e| format!("{log}: {e}"))?;
        c.nontrivial |= clauses(&s.cdb).len() < old.len();
    }
    c.mark(&log);
    c.note = log;
    Ok(())
}
/// what reduction may not touch (fixed literals, clauses that are not learnt) says what the input says
struct Kept;
impl Watch for Kept {
    fn after(&mut self, w: &mut World, o: &Op, r: Out) -> Result<(), String> {
        if !matches!(o, Op::Load | Op::Decide(..) | Op::Cancel(_)) && matches!(r, Out::Done | Out::Learnt) {
            let mut kept: Vec<Vec<i32>> = clauses(&w.s.cdb).into_iter().filter(|c| !c.learnt || c.lits.len() < 3).map(|c| c.lits).collect();
            kept.extend(fixed(&w.s.asg).into_iter().map(|l| vec![l]));
            let dead = w.dead();
            if !Models::of(&kept, w.n).project(&dead).same(&Models::of(&w.f, w.n).project(&dead)) {
                return Err(format!("after {o:?} the clauses that cannot be removed and the fixed literals, {kept:?}, do not say what the input says: a supplied clause can get lost"));
            }
        }
        Ok(())
    }
}
pub fn c14(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if r.chance(1, 3) {
        return reduction(r, c);
    }
    if r.chance(1, 2) {
        let eliminate = r.chance(1, 2);
        return go(r, c, &Plan { nmin: 3, nmax: 12, steps: 120, eliminate, database: true, limit: 0 }, &mut Kept);
    }
    go(r, c, &Plan { nmin: 5, nmax: 30, steps: 200, eliminate: false, database: true, limit: 0 }, &mut Reduction::default())
}
