//! Random walks: the real solver steps (decide, propagate, learn, backtrack, reduce, vivify,
//! simplify) in random interleavings on small formulas, observed by one property at a time.
use crate::{hx::*, rng::Rng};
use splr::{
    assign::{AssignIF, AssignReason, PropagateIF, VarManipulateIF, VarSelectIF},
    cdb::{ClauseDBIF, ReductionType, VivifyIF},
    processor::{EliminateIF, Eliminator},
    solver::*,
    types::*,
};
use std::num::NonZeroU32;

pub type Conflict = (Lit, AssignReason);
pub struct World {
    pub n: usize,
    pub f: Vec<Vec<i32>>,
    pub s: Solver,
    pub elim: bool,
    pub log: String,
}
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Load,
    Decide(Lit, bool),
    Propagate,
    Learn(Conflict),
    Cancel(u32),
    Reduce,
    Vivify,
    Clear,
    Simplify,
    Stage,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Done,
    Conflict(Conflict),
    /// the step says the formula has no model
    Unsat,
    Learnt,
    Limit,
}
pub trait Watch {
    fn before(&mut self, _w: &mut World, _o: &Op) -> Result<(), String> {
        Ok(())
    }
    fn after(&mut self, _w: &mut World, _o: &Op, _r: Out) -> Result<(), String> {
        Ok(())
    }
}
/// what a walk is made of
pub struct Plan {
    pub nmin: usize,
    pub nmax: usize,
    pub steps: usize,
    pub eliminate: bool,
    pub database: bool,
    pub limit: usize,
}

pub fn small_cnf(r: &Rng, n: usize) -> Vec<Vec<i32>> {
    let shape = r.below(6);
    let ratio = match shape {
        0 => 5 + r.below(20),
        1 => 25 + r.below(20),
        _ => 15 + r.below(35),
    };
    let m = n * ratio / 10 + 1;
    let mut f: Vec<Vec<i32>> = Vec::new();
    for _ in 0..m {
        let k = match shape {
            0 => 2 + r.below(2),
            1 => 3,
            2 => [2, 2, 3, 3, 4][r.below(5)],
            3 => [1, 2, 3, 3, 4, 5, 6][r.below(7)],
            4 => [3, 3, 4, 5][r.below(4)],
            _ => [2, 3, 3, 3, 4, 5, 7][r.below(7)],
        };
        let mut c: Vec<i32> = Vec::new();
        for _ in 0..k {
            let v = 1 + r.below(n) as i32;
            let l = if r.chance(1, 2) { v } else { -v };
            if !c.contains(&l) && !c.contains(&-l) {
                c.push(l);
            }
        }
        f.push(c);
        // relatives of earlier clauses make subsumption, strengthening and resolution work
        if r.chance(1, 5) {
            let mut d: Vec<i32> = r.pick(&f).clone();
            match r.below(4) {
                0 if d.len() > 2 => {
                    d.remove(r.below(d.len()));
                }
                1 => {
                    let k = r.below(d.len());
                    d[k] = -d[k];
                }
                2 => {
                    let v = 1 + r.below(n) as i32;
                    if !d.contains(&v) && !d.contains(&-v) {
                        d.push(v);
                    }
                }
                _ => (),
            }
            r.shuffle(&mut d);
            f.push(d);
        }
    }
    // a unit that only elimination finds, about a variable that occurs often
    if n >= 7 && r.chance(1, 6) {
        let mut vs: Vec<i32> = (1..=n as i32).collect();
        r.shuffle(&mut vs);
        let (a, b, x) = (vs[0], vs[1], if r.chance(1, 2) { vs[2] } else { -vs[2] });
        f.retain(|c| c.len() > 1 && c.iter().all(|l| l.abs() != a && l.abs() != b));
        for s in [1, -1] {
            for t in [1, -1] {
                f.push(vec![a * s, b * t, x]);
            }
        }
        for _ in 0..1 + r.below(5) {
            let mut c = vec![-x];
            for _ in 0..1 + r.below(3) {
                let v = vs[3 + r.below(n - 3)];
                let l = if r.chance(1, 2) { v } else { -v };
                if !c.contains(&l) && !c.contains(&-l) {
                    c.push(l);
                }
            }
            if c.len() > 1 {
                f.push(c);
            }
        }
    }
    r.shuffle(&mut f);
    f
}

impl World {
    pub fn open_vars(&self) -> Vec<usize> {
        (1..=self.n).filter(|v| self.s.asg.assign(*v).is_none() && !eliminated(&self.s.asg, *v)).collect()
    }
    pub fn dead(&self) -> Vec<usize> {
        (1..=self.n).filter(|v| eliminated(&self.s.asg, *v)).collect()
    }
}

/// one walk; the watcher sees every step
pub fn walk(r: &Rng, p: &Plan, w: &mut dyn Watch) -> Result<(bool, String), String> {
    let n = p.nmin + r.below(p.nmax - p.nmin + 1);
    let f = small_cnf(r, n);
    let mut c = random_config(r);
    c.c_cls_lim = p.limit;
    c.enable_eliminator = p.eliminate;
    let mut world = World { n, f: f.clone(), s: empty_solver(n, &c), elim: false, log: String::new() };
    let log0 = format!("{f:?}; ");
    world.log = log0;
    let res = run(r, p, w, &mut world);
    match res {
        Ok(x) => Ok((x, world.log)),
        Err(e) => Err(format!("{e} [formula and steps: {}]", world.log)),
    }
}

macro_rules! step {
    ($w: expr, $x: expr, $op: expr, $body: expr) => {{
        let op = $op;
        $w.before($x, &op)?;
        let out: Out = $body;
        $w.after($x, &op, out)?;
        out
    }};
}

fn verdict(r: Result<(), SolverError>, what: &str) -> Result<Out, String> {
    match r {
        Ok(()) => Ok(Out::Done),
        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => Ok(Out::Unsat),
        Err(SolverError::OutOfMemory) => Ok(Out::Limit),
        Err(e) => Err(format!("{what} failed with {e:?}")),
    }
}

fn run(r: &Rng, p: &Plan, w: &mut dyn Watch, x: &mut World) -> Result<bool, String> {
    for cl in x.f.clone() {
        let out = step!(w, x, Op::Load, match x.s.add_clause(&cl) {
            Ok(_) => Out::Done,
            Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => Out::Unsat,
            Err(e) => return Err(format!("loading {cl:?} failed with {e:?}")),
        });
        if out == Out::Unsat {
            x.log.push_str("load:unsat");
            return Ok(false);
        }
    }
    let steps = p.steps / 2 + r.below(p.steps);
    let wild = r.chance(1, 2);
    let mut learnt = 0;
    let mut k = 0;
    while k < steps {
        k += 1;
        if x.s.asg.remains() {
            x.log.push('P');
            let out = step!(w, x, Op::Propagate, match x.s.asg.propagate(&mut x.s.cdb) {
                Ok(()) => Out::Done,
                Err(c) => Out::Conflict(c),
            });
            if let Out::Conflict(cc) = out {
                if x.s.asg.decision_level() == 0 {
                    step!(w, x, Op::Learn(cc), Out::Unsat);
                    return Ok(learnt > 0);
                }
                x.log.push('L');
                x.s.asg.update_activity_tick();
                #[cfg(feature = "hooks")]
                {
                    let out = step!(w, x, Op::Learn(cc), match verif_handle_conflict(&mut x.s.asg, &mut x.s.cdb, &mut x.s.state, &cc) {
                        Ok(_) => Out::Learnt,
                        Err(e) => verdict(Err(e), "conflict analysis")?,
                    });
                    learnt += 1;
                    if out == Out::Unsat {
                        return Ok(learnt > 0);
                    }
                }
                #[cfg(not(feature = "hooks"))]
                {
                    let lv = x.s.asg.decision_level() - 1;
                    x.s.asg.cancel_until(lv);
                    learnt += 1;
                }
            }
            continue;
        }
        let open = x.open_vars();
        let dl = x.s.asg.decision_level();
        if open.is_empty() && dl == 0 {
            break;
        }
        let roll = r.below(100);
        if !open.is_empty() && roll < 78 {
            let auto = !wild || r.chance(1, 2);
            let l = if auto {
                let l = x.s.asg.select_decision_literal();
                let v = l.vi();
                if v == 0 || v > x.n || x.s.asg.assign(v).is_some() || eliminated(&x.s.asg, v) {
                    return Err(format!("the decision {} is not an open variable", num(l)));
                }
                l
            } else {
                Lit::from((*r.pick(&open), r.chance(1, 2)))
            };
            x.log.push_str(&format!("D{} ", num(l)));
            step!(w, x, Op::Decide(l, auto), {
                x.s.asg.assign_by_decision(l);
                Out::Done
            });
            continue;
        }
        if dl > 0 && (roll < 90 || !p.database) {
            let lv = r.below(dl as usize) as u32;
            x.log.push_str(&format!("C{lv} "));
            step!(w, x, Op::Cancel(lv), {
                x.s.asg.cancel_until(lv);
                Out::Done
            });
            continue;
        }
        if !p.database {
            continue;
        }
        // restart and database work, as at the end of a stage
        if dl > 0 {
            x.log.push_str("R ");
            step!(w, x, Op::Cancel(0), {
                x.s.asg.cancel_until(0);
                Out::Done
            });
        }
        x.log.push_str("clear ");
        let out = step!(w, x, Op::Clear, verdict(x.s.asg.clear_asserted_literals(&mut x.s.cdb), "clearing")?);
        if out == Out::Unsat {
            return Ok(learnt > 0);
        }
        if r.chance(1, 2) {
            let t = match r.below(4) {
                0 => ReductionType::RASonADD(r.below(12)),
                1 => ReductionType::RASonALL(r.below(6) as f64, r.below(11) as f64 / 10.0),
                2 => ReductionType::LBDonADD(r.below(12)),
                _ => ReductionType::LBDonALL(r.below(6) as u16, r.below(11) as f64 / 10.0),
            };
            x.log.push_str(&format!("{t:?} "));
            step!(w, x, Op::Reduce, {
                x.s.cdb.reduce(&mut x.s.asg, t);
                Out::Done
            });
        }
        if r.chance(1, 2) {
            x.log.push_str("vivify ");
            let out = step!(w, x, Op::Vivify, verdict(x.s.cdb.vivify(&mut x.s.asg, &mut x.s.state), "vivification")?);
            if out != Out::Done {
                return Ok(learnt > 0);
            }
        }
        if r.chance(1, 2) {
            x.log.push_str("simplify ");
            let out = step!(w, x, Op::Simplify, {
                let mut e = Eliminator::instantiate(&x.s.state.config, &x.s.state.cnf);
                let res = e.simplify(&mut x.s.asg, &mut x.s.cdb, &mut x.s.state, false);
                x.s.asg.eliminated.append(e.eliminated_lits());
                x.elim = true;
                verdict(res, "simplification")?
            });
            if out != Out::Done {
                return Ok(learnt > 0);
            }
        }
        step!(w, x, Op::Stage, {
            x.s.asg.handle(SolverEvent::Stage(NonZeroU32::new(1 << r.below(6)).unwrap().get() as usize));
            Out::Done
        });
    }
    Ok(learnt > 0 || k > 8)
}
