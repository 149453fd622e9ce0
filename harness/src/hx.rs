//! What the checks share: building solvers, reading their state, structural checks.
use crate::rng::Rng;
use splr::{
    assign::{AssignIF, AssignReason, AssignStack, VarManipulateIF},
    cdb::{ClauseDB, ClauseDBIF},
    solver::*,
    types::*,
};

pub fn lit(i: i32) -> Lit {
    Lit::from(i)
}
pub fn num(l: Lit) -> i32 {
    i32::from(l)
}
pub fn nums(v: &[Lit]) -> Vec<i32> {
    v.iter().map(|l| i32::from(*l)).collect()
}
pub fn quiet() -> Config {
    Config { quiet_mode: true, splr_interface: true, c_timeout: 1000.0, ..Config::default() }
}
/// heuristic parameters a user may set; every combination has to keep the guarantees
pub fn random_config(r: &Rng) -> Config {
    let mut c = quiet();
    if r.chance(1, 2) {
        c.enable_eliminator = !r.chance(1, 4);
        c.elm_cls_lim = *r.pick(&[c.elm_cls_lim, 2, 4, 8, 1000]);
        c.elm_grw_lim = *r.pick(&[c.elm_grw_lim, 0, 2, 64]);
        c.elm_var_occ = *r.pick(&[c.elm_var_occ, 1, 3, 9, 100000]);
        c.cls_rdc_lbd = *r.pick(&[c.cls_rdc_lbd, 2, 3, 9]);
        c.rst_lbd_thr = *r.pick(&[c.rst_lbd_thr, 0.5, 1.0, 3.0]);
    }
    c
}
pub fn empty_solver(n: usize, c: &Config) -> Solver {
    Solver::instantiate(c, &CNFDescription { num_of_variables: n, ..CNFDescription::default() })
}
/// load clauses through the API; Ok(None) when loading already found unsatisfiability
pub fn load(n: usize, f: &[Vec<i32>], c: &Config) -> Result<Option<Solver>, String> {
    let mut s = empty_solver(n, c);
    for cl in f {
        match s.add_clause(cl) {
            Ok(_) => (),
            Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => return Ok(None),
            Err(e) => return Err(format!("loading {cl:?} failed with {e:?}")),
        }
    }
    Ok(Some(s))
}
pub struct Cl {
    pub cid: ClauseId,
    pub lits: Vec<i32>,
    pub learnt: bool,
}
pub fn clauses(cdb: &ClauseDB) -> Vec<Cl> {
    cdb.iter()
        .enumerate()
        .skip(1)
        .filter(|(_, c)| !c.is_dead())
        .map(|(i, c)| Cl { cid: ClauseId::from(i), lits: c.iter().map(|l| num(*l)).collect(), learnt: c.is(FlagClause::LEARNT) })
        .collect()
}
/// literals fixed at level 0
pub fn fixed(asg: &AssignStack) -> Vec<i32> {
    (1..=asg.num_vars).filter(|v| asg.assign(*v).is_some() && asg.level(*v) == 0).map(|v| if asg.assign(v) == Some(true) { v as i32 } else { -(v as i32) }).collect()
}
pub fn eliminated(asg: &AssignStack, v: usize) -> bool {
    asg.var(v).is(FlagVar::ELIMINATED)
}
/// stored clauses and fixed literals
pub fn held(asg: &AssignStack, cdb: &ClauseDB) -> Vec<Vec<i32>> {
    let mut f: Vec<Vec<i32>> = clauses(cdb).into_iter().map(|c| c.lits).collect();
    f.extend(fixed(asg).into_iter().map(|l| vec![l]));
    f
}
pub fn value(asg: &AssignStack, l: i32) -> Option<bool> {
    asg.assign(l.unsigned_abs() as usize).map(|b| b == (l > 0))
}

/// models of a set of clauses over n <= 16 variables as a bit set
pub struct Models(Vec<u64>, pub usize);
impl Models {
    pub fn all(n: usize) -> Models {
        let k = 1usize << n;
        Models(if k >= 64 { vec![!0; k / 64] } else { vec![(1u64 << k) - 1] }, n)
    }
    pub fn of(f: &[Vec<i32>], n: usize) -> Models {
        let mut m = Models::all(n);
        for c in f {
            m.add(c);
        }
        m
    }
    fn word(w: usize, v: usize) -> u64 {
        const P: [u64; 6] = [0xAAAA_AAAA_AAAA_AAAA, 0xCCCC_CCCC_CCCC_CCCC, 0xF0F0_F0F0_F0F0_F0F0, 0xFF00_FF00_FF00_FF00, 0xFFFF_0000_FFFF_0000, 0xFFFF_FFFF_0000_0000];
        if v < 6 { P[v] } else if (w >> (v - 6)) & 1 == 1 { !0 } else { 0 }
    }
    fn lit(w: usize, l: i32) -> u64 {
        let p = Models::word(w, l.unsigned_abs() as usize - 1);
        if l > 0 { p } else { !p }
    }
    pub fn add(&mut self, c: &[i32]) {
        for w in 0..self.0.len() {
            self.0[w] &= c.iter().fold(0, |a, &l| a | Models::lit(w, l));
        }
    }
    /// every model makes c true
    pub fn implies(&self, c: &[i32]) -> bool {
        (0..self.0.len()).all(|w| self.0[w] & !c.iter().fold(0, |a, &l| a | Models::lit(w, l)) == 0)
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|w| *w == 0)
    }
    pub fn same(&self, o: &Models) -> bool {
        self.0 == o.0
    }
    pub fn has(&self, m: usize) -> bool {
        (self.0[m / 64] >> (m % 64)) & 1 == 1
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..1usize << self.1).filter(|m| self.has(*m))
    }
    /// forget the value of the given variables (1-based)
    pub fn project(&self, vars: &[usize]) -> Models {
        let mut s = Models(self.0.clone(), self.1);
        for &v in vars {
            let b = 1usize << (v - 1);
            let mut t = vec![0u64; s.0.len()];
            if v - 1 < 6 {
                for w in 0..s.0.len() {
                    let p = Models::word(w, v - 1);
                    t[w] = s.0[w] | ((s.0[w] & p) >> b) | ((s.0[w] & !p) << b);
                }
            } else {
                let d = b / 64;
                for w in 0..s.0.len() {
                    t[w] = s.0[w] | s.0[w ^ d];
                }
            }
            s = Models(t, self.1);
        }
        s
    }
}
pub fn model_of(m: usize, n: usize) -> Vec<i32> {
    (1..=n as i32).map(|v| if (m >> (v - 1)) & 1 == 1 { v } else { -v }).collect()
}

/// C12: indices, links and counts against the stored clauses
#[cfg(feature = "hooks")]
pub fn check_index(asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
    use std::collections::HashMap;
    let n = asg.num_vars;
    let (nw, nb, nt) = cdb.verif_num_lits();
    if nw != 2 * (n + 1) || nb != 2 * (n + 1) || nt != n + 1 {
        return Err(format!("{n} variables, but {nw} watch lists, {nb} link lists and {nt} work cells"));
    }
    let cls = clauses(cdb);
    let by: HashMap<ClauseId, &Cl> = cls.iter().map(|c| (c.cid, c)).collect();
    let mut watched: HashMap<ClauseId, Vec<i32>> = HashMap::new();
    let mut linked: HashMap<ClauseId, Vec<(i32, i32)>> = HashMap::new();
    for v in 1..=n as i32 {
        for l in [v, -v] {
            for (cid, _) in cdb.verif_watches(lit(l)) {
                let Some(_) = by.get(cid) else {
                    return Err(format!("the watch list of {l} refers to clause {cid:?}, which is not stored"));
                };
                watched.entry(*cid).or_default().push(-l);
            }
            for (other, cid) in cdb.binary_links(lit(l)).iter() {
                if !by.contains_key(cid) {
                    return Err(format!("the link list of {l} refers to clause {cid:?}, which is not stored"));
                }
                linked.entry(*cid).or_default().push((l, num(*other)));
            }
        }
    }
    let mut bins = 0;
    let mut learnts = 0;
    for c in &cls {
        if c.learnt {
            learnts += 1;
        }
        let mut s = c.lits.clone();
        s.sort();
        s.dedup();
        if s.len() != c.lits.len() || s.iter().any(|l| s.contains(&-l)) {
            return Err(format!("stored clause {:?} has repeated or opposite literals", c.lits));
        }
        let w = watched.remove(&c.cid).unwrap_or_default();
        let b = linked.remove(&c.cid).unwrap_or_default();
        if c.lits.len() < 2 {
            return Err(format!("a clause with {} literal is stored: {:?}", c.lits.len(), c.lits));
        }
        if c.lits.len() == 2 {
            bins += 1;
            let mut b = b.clone();
            b.sort();
            let mut e = vec![(c.lits[0], c.lits[1]), (c.lits[1], c.lits[0])];
            e.sort();
            if b != e {
                return Err(format!("two-literal clause {:?} ({:?}) has the links {b:?}", c.lits, c.cid));
            }
            if !w.is_empty() {
                return Err(format!("two-literal clause {:?} ({:?}) is in the watch lists for {w:?}", c.lits, c.cid));
            }
            for (x, y) in [(0, 1), (1, 0)] {
                if cdb.verif_search(lit(c.lits[x]), lit(c.lits[y])) != Some(c.cid) {
                    return Err(format!("looking up the two-literal clause {:?} ({:?}) gives {:?}", c.lits, c.cid, cdb.verif_search(lit(c.lits[x]), lit(c.lits[y]))));
                }
            }
        } else {
            let mut w = w.clone();
            w.sort();
            let mut e = vec![c.lits[0], c.lits[1]];
            e.sort();
            if w != e {
                return Err(format!("clause {:?} ({:?}) is watched for {w:?}", c.lits, c.cid));
            }
            if !b.is_empty() {
                return Err(format!("clause {:?} ({:?}) is in the binary links {b:?}", c.lits, c.cid));
            }
        }
    }
    if cdb.verif_lookup().len() != bins {
        return Err(format!("{bins} two-literal clauses, but {} pairs can be looked up", cdb.verif_lookup().len()));
    }
    let (nc, nb, nl) = cdb.verif_counts();
    if (nc, nb, nl) != (cls.len(), bins, learnts) {
        return Err(format!("stored: {} clauses, {bins} two-literal, {learnts} learnt; counted: {nc}, {nb}, {nl}", cls.len()));
    }
    let mut free: Vec<ClauseId> = cdb.verif_freelist().to_vec();
    free.sort();
    let k = free.len();
    free.dedup();
    if k != free.len() {
        return Err("a slot is in the free list twice".into());
    }
    let dead: Vec<ClauseId> = cdb.iter().enumerate().skip(1).filter(|(_, c)| c.is_dead()).map(|(i, _)| ClauseId::from(i)).collect();
    if dead != free {
        return Err(format!("free slots {dead:?}, free list {free:?}"));
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
pub fn check_index(_: &AssignStack, _: &ClauseDB) -> Result<(), String> {
    Ok(())
}

/// C09: the assignment sequence, levels and reasons agree
pub fn check_trail(asg: &AssignStack) -> Result<(), String> {
    let n = asg.num_vars;
    let trail: Vec<i32> = asg.stack_iter().map(|l| num(*l)).collect();
    let mut pos = vec![usize::MAX; n + 1];
    for (i, l) in trail.iter().enumerate() {
        let v = l.unsigned_abs() as usize;
        if pos[v] != usize::MAX {
            return Err(format!("variable {v} is in the assignment sequence twice: {trail:?}"));
        }
        pos[v] = i;
        if value(asg, *l) != Some(true) {
            return Err(format!("{l} is in the assignment sequence {trail:?} but its value is {:?}", value(asg, *l)));
        }
        if eliminated(asg, v) {
            return Err(format!("eliminated variable {v} is in the assignment sequence {trail:?}"));
        }
    }
    let dl = asg.decision_level();
    let lim: Vec<usize> = (0..dl).map(|k| asg.len_upto(k)).collect();
    if lim.windows(2).any(|w| w[0] >= w[1]) || lim.last().is_some_and(|x| *x >= trail.len()) {
        return Err(format!("level boundaries {lim:?} in a sequence of {}", trail.len()));
    }
    for v in 1..=n {
        match asg.assign(v) {
            None => {
                if pos[v] != usize::MAX {
                    return Err(format!("unassigned {v} is in the assignment sequence"));
                }
                if asg.reason(v) != AssignReason::None && !eliminated(asg, v) {
                    return Err(format!("unassigned {v} has the reason {:?}", asg.reason(v)));
                }
            }
            Some(_) => {
                if pos[v] == usize::MAX {
                    if asg.level(v) != 0 {
                        return Err(format!("{v} is assigned at level {} but not in the assignment sequence {trail:?}", asg.level(v)));
                    }
                } else {
                    let lv = lim.iter().filter(|x| **x <= pos[v]).count() as u32;
                    if asg.level(v) != lv {
                        return Err(format!("{v} is at position {} (level {lv}) of the sequence but has level {}", pos[v], asg.level(v)));
                    }
                    let decision = lv > 0 && lim[lv as usize - 1] == pos[v];
                    match asg.reason(v) {
                        AssignReason::Decision(0) if lv == 0 => (),
                        AssignReason::Decision(k) if decision && k == lv => (),
                        AssignReason::BinaryLink(_) | AssignReason::Implication(_) if !decision => (),
                        x => return Err(format!("{v} at level {lv} (decision: {decision}) has the reason {x:?}")),
                    }
                }
            }
        }
    }
    Ok(())
}

/// C11: the decision queue
#[cfg(feature = "hooks")]
pub fn check_queue(asg: &AssignStack, complete: bool) -> Result<(), String> {
    let n = asg.num_vars;
    let (heap, idxs) = asg.verif_heap();
    if heap.len() != n + 1 || idxs.len() != n + 1 {
        return Err(format!("{n} variables, but the queue has {} and {} cells", heap.len(), idxs.len()));
    }
    let k = idxs[0] as usize;
    if k > n {
        return Err(format!("the queue claims {k} of {n} variables"));
    }
    let mut seen = vec![false; n + 1];
    for i in 1..=n {
        let v = heap[i] as usize;
        if v == 0 || v > n || seen[v] {
            return Err(format!("queue cell {i} holds {v} (repeated or no variable): {heap:?}"));
        }
        seen[v] = true;
        if idxs[v] as usize != i {
            return Err(format!("variable {v} is in cell {i}, its position says {}", idxs[v]));
        }
    }
    if complete {
        let saved = asg.verif_trail().2;
        for v in 1..=n {
            if asg.assign(v).is_none() && !eliminated(asg, v) && idxs[v] as usize > k && !saved.iter().any(|l| l.vi() == v) {
                return Err(format!("unassigned variable {v} is neither in the queue ({:?}) nor on the saved trail", &heap[1..=k]));
            }
        }
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
pub fn check_queue(_: &AssignStack, _: bool) -> Result<(), String> {
    Ok(())
}

/// C10: nothing left to propagate, and everything propagated is justified
pub fn check_propagated(asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
    for c in clauses(cdb) {
        let mut open = 0;
        let mut sat = false;
        for &l in &c.lits {
            if eliminated(asg, l.unsigned_abs() as usize) {
                return Err(format!("stored clause {:?} mentions the eliminated variable of {l}", c.lits));
            }
            match value(asg, l) {
                Some(true) => sat = true,
                None => open += 1,
                _ => (),
            }
        }
        if !sat && open == 0 {
            return Err(format!("propagation reported no conflict, but stored clause {:?} is false", c.lits));
        }
        if !sat && open == 1 {
            return Err(format!("propagation ended, but stored clause {:?} is unit under {:?}", c.lits, asg.stack_iter().map(|l| num(*l)).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
pub fn check_reasons(asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
    let trail: Vec<i32> = asg.stack_iter().map(|l| num(*l)).collect();
    let pos = |l: i32| trail.iter().position(|x| *x == l);
    for (i, &l) in trail.iter().enumerate() {
        let v = l.unsigned_abs() as usize;
        if asg.level(v) == 0 {
            continue;
        }
        let why: Vec<i32> = match asg.reason(v) {
            AssignReason::BinaryLink(f) => {
                let f = num(f);
                if !cdb.binary_links(lit(l)).iter().any(|(o, _)| num(*o) == -f) {
                    return Err(format!("{l} is said to follow from {f}, but there is no clause [{l}, {}]", -f));
                }
                vec![l, -f]
            }
            AssignReason::Implication(cid) => {
                let c = &cdb[cid];
                if c.is_dead() {
                    return Err(format!("the reason clause of {l} was removed"));
                }
                let w: Vec<i32> = c.iter().map(|l| num(*l)).collect();
                if w[0] != l {
                    return Err(format!("the reason {w:?} of {l} does not begin with it"));
                }
                w
            }
            _ => continue,
        };
        for &k in &why {
            if k != l && !(value(asg, k) == Some(false) && (pos(-k).is_some_and(|p| p < i) || asg.level(k.unsigned_abs() as usize) == 0)) {
                return Err(format!("{l} was assigned because of {why:?}, but {k} was not false before"));
            }
        }
    }
    Ok(())
}
/// the literals of a conflict
pub fn conflict_lits(cdb: &ClauseDB, cc: &(Lit, AssignReason)) -> Result<Vec<i32>, String> {
    match cc.1 {
        AssignReason::BinaryLink(l) => {
            let v = vec![num(cc.0), -num(l)];
            if !cdb.binary_links(lit(v[0])).iter().any(|(o, _)| num(*o) == v[1]) {
                return Err(format!("the conflict names the clause {v:?}, which is not stored"));
            }
            Ok(v)
        }
        AssignReason::Implication(c) => {
            if cdb[c].is_dead() {
                return Err("the conflict names a removed clause".into());
            }
            Ok(cdb[c].iter().map(|l| num(*l)).collect())
        }
        _ => Err(format!("a conflict without a clause: {:?}", cc.1)),
    }
}
