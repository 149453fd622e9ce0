//! Properties of the public interface: loading, solving, certification, validation, limits, growth.
use crate::{hx::*, oracle, rng::Rng, run::Case};
use splr::{
    assign::{AssignIF, AssignStack, PropagateIF, VarManipulateIF},
    cdb::{ClauseDB, ClauseDBIF},
    solver::*,
    types::*,
};
use std::path::{Path, PathBuf};

fn raw_clause(r: &Rng, n: usize, kmax: usize) -> Vec<i32> {
    let k = 1 + r.below(kmax);
    let mut c: Vec<i32> = Vec::new();
    for _ in 0..k {
        if !c.is_empty() && r.chance(1, 7) {
            let l = *r.pick(&c);
            c.push(if r.chance(1, 3) { -l } else { l });
        } else {
            c.push((1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 });
        }
    }
    c
}
fn bad_lit(r: &Rng, n: usize) -> i32 {
    let n = n as i32;
    *r.pick(&[0, n + 1, -n - 1, n + 2 + r.below(50) as i32, -n - 2 - r.below(50) as i32, (1 << 30) - 1, i32::MAX, i32::MIN, -i32::MAX, 1 << 30, -(1 << 30)])
}
fn snap(s: &Solver) -> String {
    // the lookup table prints in the order of its hash map, which only changes when it does
    format!("{:?} {:?} {:?} {:?}", held(&s.asg, &s.cdb), s.asg, s.cdb, s.state)
}
fn kind(e: &SolverError) -> &'static str {
    match e {
        SolverError::InvalidLiteral => "InvalidLiteral",
        SolverError::EmptyClause => "EmptyClause",
        SolverError::RootLevelConflict(_) => "RootLevelConflict",
        SolverError::Inconsistent => "Inconsistent",
        SolverError::OutOfMemory => "OutOfMemory",
        SolverError::TimeOut => "TimeOut",
        SolverError::IOError => "IOError",
        _ => "other",
    }
}

// ---------------------------------------------------------------- DIMACS texts
/// a text for the clauses; mostly well formed, in any layout
fn dimacs(r: &Rng, n: usize, f: &[Vec<i32>]) -> String {
    let mut t = String::new();
    for _ in 0..r.below(3) {
        t.push_str(*r.pick(&["c a comment\n", "c\n", "c 1 -2 0\n", "\n", "c p cnf 3 3\n"]));
    }
    let sp = *r.pick(&[" ", "  ", "\t"]);
    t.push_str(&format!("p{sp}cnf{sp}{n}{sp}{}{}\n", f.len(), if r.chance(1, 4) { " " } else { "" }));
    let layout = r.below(4);
    let omit = r.chance(1, 5);
    for (i, c) in f.iter().enumerate() {
        if r.chance(1, 9) && (t.ends_with('\n')) {
            t.push_str("c comment 0\n");
        }
        for l in c {
            t.push_str(&l.to_string());
            match layout {
                0 => t.push(' '),
                1 => t.push_str(if r.chance(1, 3) { "\n" } else { " " }),
                2 => t.push_str(sp),
                _ => t.push_str(if r.chance(1, 8) { "\r\n" } else { " " }),
            }
            if r.chance(1, 40) && t.ends_with('\n') {
                t.push_str("c inside\n");
            }
        }
        let last = i + 1 == f.len();
        if !(last && omit && !c.is_empty()) {
            t.push('0');
        }
        t.push_str(match layout {
            0 => "\n",
            1 => {
                if r.chance(1, 2) {
                    "\n"
                } else {
                    " "
                }
            }
            2 => {
                if r.chance(1, 4) {
                    "\n\n"
                } else {
                    " "
                }
            }
            _ => "\n",
        });
    }
    if r.chance(1, 3) && t.ends_with('\n') && !f.is_empty() {
        t.pop();
    }
    t
}
fn write(c: &Case, name: &str, text: &str) -> PathBuf {
    let p = Path::new(&c.dir).join(name);
    std::fs::write(&p, text).unwrap();
    p
}
fn build(p: &Path, cfg: &Config) -> Result<Solver, SolverError> {
    let mut cfg = cfg.clone();
    cfg.cnf_file = p.to_path_buf();
    Solver::build(&cfg)
}

// ---------------------------------------------------------------- C03
fn is_undeclared(n: usize, c: &[i32]) -> bool {
    c.iter().any(|l| *l == 0 || l.unsigned_abs() as usize > n)
}
/// the text with the literal `b` written with too many digits (the header stays)
fn huge(text: &str, b: i32) -> String {
    let mut header = false;
    text.split_inclusive('\n')
        .map(|l| {
            if !header && l.trim_start().starts_with('p') {
                header = true;
                l.to_string()
            } else {
                l.replace(&b.to_string(), "99999999999999999999")
            }
        })
        .collect()
}

pub fn c03(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let mut n = r.below(9);
    let cfg = random_config(r);
    if r.chance(1, 4) {
        // files and vectors
        let n = 1 + r.below(8);
        let mut f: Vec<Vec<i32>> = (0..1 + r.below(8)).map(|_| raw_clause(r, n, 4)).collect();
        let at = r.below(f.len());
        let b = loop {
            let b = bad_lit(r, n);
            if b != 0 {
                break b;
            }
        };
        let k = r.below(f[at].len() + 1);
        f[at].insert(k, b);
        c.nontrivial = true;
        c.note = format!("file with {n} variables: {f:?}");
        c.mark(&f);
        // clauses before the bad one may already be contradictory
        let earlier = load(n, &f[..at], &cfg)?.is_none();
        let text = if r.chance(1, 5) { huge(&dimacs(r, n, &f), b) } else { dimacs(r, n, &f) };
        let p = write(c, "bad.cnf", &text);
        return match build(&p, &cfg) {
            Err(SolverError::InvalidLiteral) => Ok(()),
            Err(SolverError::EmptyClause) if earlier => Ok(()),
            x => Err(format!("a file that uses the undeclared {b} gives {:?}: {text:?}", x.map(|_| "a solver").map_err(|e| format!("{e:?}")))),
        };
    }
    if r.chance(1, 8) {
        // the variables of a vector are those up to the greatest magnitude, whichever its sign
        let n = 1 + r.below(*r.pick(&[2, 6, 40]));
        let (k, len) = (1 + r.below(4), 1 + r.below(3));
        let f: Vec<Vec<i32>> = (0..k).map(|_| raw_clause(r, n, len)).filter(|c| !c.is_empty()).collect();
        let f = if f.is_empty() { vec![vec![-(n as i32)]] } else { f };
        c.nontrivial = true;
        c.note = format!("vector {f:?}");
        c.mark(&f);
        let n = oracle::num_vars(&f);
        let d = CNFDescription::from(f.as_ref());
        if d.num_of_variables != n || d.num_of_clauses != f.len() {
            return Err(format!("{f:?} is described as {} variables, {} clauses", d.num_of_variables, d.num_of_clauses));
        }
        match Solver::try_from((cfg, f.as_ref())) {
            Err(Err(SolverError::InvalidLiteral)) => return Err(format!("the vector {f:?} is rejected as invalid")),
            Ok(s) if s.asg.num_vars != n => return Err(format!("{f:?}: a solver over {} variables", s.asg.num_vars)),
            _ => (),
        }
        return match Certificate::try_from(f.clone()) {
            Err(SolverError::InvalidLiteral) => Err(format!("the vector {f:?} is rejected as invalid")),
            _ => Ok(()),
        };
    }
    if r.chance(1, 8) {
        let n = 1 + r.below(6);
        let mut f: Vec<Vec<i32>> = (0..1 + r.below(5)).map(|_| raw_clause(r, n, 4)).collect();
        let at = r.below(f.len());
        let k = r.below(f[at].len() + 1);
        f[at].insert(k, 0);
        c.note = format!("vector {f:?}");
        c.mark(&f);
        let n = oracle::num_vars(&f);
        let earlier = load(n, &f[..at], &cfg)?.is_none();
        match Solver::try_from((cfg, f.as_ref())) {
            Err(Err(SolverError::InvalidLiteral)) => (),
            Err(Err(SolverError::EmptyClause)) if earlier => (),
            Err(Ok(Certificate::UNSAT)) if earlier => (),
            x => return Err(format!("a vector with a 0 gives {:?}: {f:?}", x.map(|_| "a solver").map_err(|e| format!("{e:?}")))),
        }
        return match Certificate::try_from(f.clone()) {
            Err(SolverError::InvalidLiteral) => Ok(()),
            Ok(Certificate::UNSAT) if earlier => Ok(()),
            x => Err(format!("a vector with a 0 gives {x:?}: {f:?}")),
        };
    }
    let mut s = empty_solver(n, &cfg);
    let mut log = format!("{n} variables: ");
    for _ in 0..4 + r.below(20) {
        match r.below(9) {
            0 => {
                n = s.add_var();
                log.push_str("add_var ");
            }
            1 | 2 => {
                let b = bad_lit(r, n);
                log.push_str(&format!("assign {b} "));
                let pre = snap(&s);
                match s.add_assignment(b) {
                    Err(SolverError::InvalidLiteral) => (),
                    x => return Err(format!("{log}: add_assignment({b}) gives {:?}", x.map(|_| ()).map_err(|e| format!("{e:?}")))),
                }
                if snap(&s) != pre {
                    return Err(format!("{log}: the rejected assignment {b} changed the solver"));
                }
                c.nontrivial = true;
            }
            3 | 4 => {
                let mut k = if n == 0 { vec![] } else { raw_clause(r, n, 5) };
                if n == 0 || r.chance(1, 9) {
                    k.clear();
                }
                let b = bad_lit(r, n);
                let at = r.below(k.len() + 1);
                k.insert(at, b);
                log.push_str(&format!("clause {k:?} "));
                let pre = snap(&s);
                match s.add_clause(&k) {
                    Err(SolverError::InvalidLiteral) => (),
                    x => return Err(format!("{log}: add_clause({k:?}) gives {:?}", x.map(|_| ()).map_err(|e| format!("{e:?}")))),
                }
                if snap(&s) != pre {
                    return Err(format!("{log}: the rejected clause {k:?} changed the solver"));
                }
                c.nontrivial = true;
            }
            5 => {
                log.push_str("clause [] ");
                let pre = snap(&s);
                match s.add_clause(Vec::<i32>::new()) {
                    Err(SolverError::EmptyClause) => (),
                    x => return Err(format!("{log}: adding the empty clause gives {:?}", x.map(|_| ()).map_err(|e| format!("{e:?}")))),
                }
                if snap(&s) != pre {
                    return Err(format!("{log}: the rejected empty clause changed the solver"));
                }
            }
            6 if r.chance(1, 2) => {
                let mut k = if n == 0 { vec![] } else { raw_clause(r, n, 5) };
                let b = bad_lit(r, n);
                let at = r.below(k.len() + 1);
                k.insert(at, b);
                log.push_str(&format!("inject {k:?} "));
                let pre = snap(&s);
                match s.inject_assignment(&k) {
                    Err(SolverError::InvalidLiteral) => (),
                    x => return Err(format!("{log}: inject_assignment({k:?}) gives {x:?}")),
                }
                if snap(&s) != pre {
                    return Err(format!("{log}: the rejected assignment set {k:?} changed the solver"));
                }
            }
            6 | 7 if n > 0 => {
                let k = raw_clause(r, n, 5);
                debug_assert!(!is_undeclared(n, &k));
                log.push_str(&format!("clause {k:?} "));
                if let Err(e) = s.add_clause(&k)
                    && kind(&e) == "InvalidLiteral"
                {
                    return Err(format!("{log}: the clause {k:?} is rejected as invalid"));
                }
            }
            _ if n > 0 => {
                let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                log.push_str(&format!("assign {l} "));
                let res = if r.chance(1, 2) { s.add_assignment(l).map(|_| ()) } else { s.inject_assignment(&[l]) };
                if let Err(e) = res
                    && kind(&e) == "InvalidLiteral"
                {
                    return Err(format!("{log}: the assignment {l} is rejected as invalid"));
                }
            }
            _ => (),
        }
    }
    c.mark(&log);
    c.note = log;
    Ok(())
}

// ---------------------------------------------------------------- C04
fn reduce_clause(k: &[i32], fixed: &[i32]) -> Option<Vec<i32>> {
    if k.iter().any(|l| k.contains(&-l) || fixed.contains(l)) {
        return None;
    }
    let mut d: Vec<i32> = k.iter().copied().filter(|l| !fixed.contains(&-l)).collect();
    d.sort();
    d.dedup();
    Some(d)
}
fn stored(cdb: &ClauseDB) -> Vec<Vec<i32>> {
    let mut v: Vec<Vec<i32>> = clauses(cdb)
        .into_iter()
        .map(|mut c| {
            c.lits.sort();
            c.lits
        })
        .collect();
    v.sort();
    v
}
pub fn c04(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let n = 1 + r.below(10);
    let cfg = random_config(r);
    if r.chance(1, 2) {
        let mut s = empty_solver(n, &cfg);
        let mut pre = Models::all(n);
        let mut log = format!("{n} variables: ");
        for _ in 0..3 + r.below(20) {
            let had = stored(&s.cdb);
            let fix = fixed(&s.asg);
            if r.chance(1, 6) {
                let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                log.push_str(&format!("assign {l} "));
                match s.add_assignment(l) {
                    Ok(_) if !fix.contains(&-l) => (),
                    Err(SolverError::RootLevelConflict(_)) if fix.contains(&-l) => break,
                    x => return Err(format!("{log}: gives {:?}", x.map(|_| ()).map_err(|e| format!("{e:?}")))),
                }
                pre.add(&[l]);
                let mut want = fix.clone();
                if !want.contains(&l) {
                    want.push(l);
                }
                want.sort_by_key(|l| l.abs());
                if fixed(&s.asg) != want || stored(&s.cdb) != had {
                    return Err(format!("{log}: fixed literals {:?}, clauses {:?}", fixed(&s.asg), stored(&s.cdb)));
                }
                continue;
            }
            let k = raw_clause(r, n, *r.pick(&[2, 3, 5, 9]));
            log.push_str(&format!("clause {k:?} "));
            pre.add(&k);
            let red = reduce_clause(&k, &fix);
            let res = s.add_clause(&k).map(|_| ()).map_err(|e| format!("{e:?}"));
            let mut want = had.clone();
            let mut wfix = fix.clone();
            match red {
                None => (),
                Some(d) if d.is_empty() => {
                    if res.is_ok() {
                        return Err(format!("{log}: all literals of {k:?} are false ({fix:?}), but loading succeeds"));
                    }
                    if !pre.is_empty() {
                        return Err(format!("{log}: internal: models left"));
                    }
                    break;
                }
                Some(d) if d.len() == 1 => {
                    wfix.push(d[0]);
                    wfix.sort_by_key(|l| l.abs());
                }
                Some(d) => {
                    if d.len() > 2 || !want.contains(&d) {
                        want.push(d);
                        want.sort();
                    }
                }
            }
            if res.is_err() {
                return Err(format!("{log}: loading {k:?} fails with {res:?} although it is not false under {fix:?}"));
            }
            if stored(&s.cdb) != want || fixed(&s.asg) != wfix {
                return Err(format!("{log}: loading {k:?} under {fix:?} leaves {:?} and {:?}, expected {want:?} and {wfix:?}", stored(&s.cdb), fixed(&s.asg)));
            }
            if !Models::of(&held(&s.asg, &s.cdb), n).same(&pre) {
                return Err(format!("{log}: what is held has other models than what was loaded"));
            }
            c.nontrivial = true;
        }
        c.mark(&log);
        c.note = log;
        return Ok(());
    }
    // text against memory
    let f: Vec<Vec<i32>> = (0..r.below(14)).map(|_| if r.chance(1, 60) { vec![] } else { raw_clause(r, n, *r.pick(&[2, 3, 5, 12])) }).collect();
    let text = dimacs(r, n, &f);
    c.note = format!("{text:?}");
    c.mark(&text);
    c.nontrivial = f.len() > 1;
    let p = write(c, "f.cnf", &text);
    let from_file = build(&p, &cfg);
    let mut s = empty_solver(n, &cfg);
    let mut bad = false;
    for k in &f {
        if k.is_empty() || s.add_clause(k).is_err() {
            bad = true;
            break;
        }
    }
    match from_file {
        Ok(t) => {
            if bad {
                return Err(format!("loading {f:?} from memory fails, the file {text:?} loads"));
            }
            if stored(&t.cdb) != stored(&s.cdb) || fixed(&t.asg) != fixed(&s.asg) || t.asg.num_vars != n {
                return Err(format!("the file {text:?} gives {:?} and {:?} over {} variables, its clauses in memory give {:?} and {:?} over {n}", stored(&t.cdb), fixed(&t.asg), t.asg.num_vars, stored(&s.cdb), fixed(&s.asg)));
            }
        }
        Err(SolverError::EmptyClause) if bad => (),
        Err(e) => return Err(format!("the file {text:?} gives {e:?}; from memory: {}", if bad { "unsatisfiable" } else { "fine" })),
    }
    let m = oracle::num_vars(&f);
    match Solver::try_from((cfg.clone(), f.as_ref())) {
        Ok(t) => {
            if bad || stored(&t.cdb) != stored(&s.cdb) || fixed(&t.asg) != fixed(&s.asg).into_iter().filter(|l| l.unsigned_abs() as usize <= m).collect::<Vec<_>>() {
                return Err(format!("the vector {f:?} gives {:?} and {:?}; one by one: {:?} and {:?} (failed: {bad})", stored(&t.cdb), fixed(&t.asg), stored(&s.cdb), fixed(&s.asg)));
            }
        }
        Err(_) if bad => (),
        Err(e) => return Err(format!("the vector {f:?} gives {e:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- solving
pub enum Answer {
    Sat(Vec<i32>),
    Unsat,
    Error(String),
}
/// a formula, how it is given to the solver, and what the solver says
pub struct Solved {
    pub n: usize,
    pub f: Vec<Vec<i32>>,
    pub ans: Answer,
    pub s: Option<Solver>,
    pub at_load: bool,
    pub how: String,
    /// a model the formula was built around (clauses and assignments added later may exclude it)
    pub planted: Option<Vec<bool>>,
}
impl Solved {
    /// the formula is known to have a model: it was built around one, or is small enough to search
    pub fn surely_sat(&self) -> bool {
        if let Some(m) = &self.planted
            && m.len() > oracle::num_vars(&self.f)
            && oracle::satisfies(&self.f, m).is_none()
        {
            return true;
        }
        (self.n <= 26 || self.f.len() < 280 && self.n < 60) && oracle::sat(&self.f)
    }
}
pub fn solve_case(r: &mut Rng, c: &mut Case, cfg: &Config) -> Solved {
    let mut planted = None;
    let mut f: Vec<Vec<i32>> = if r.chance(1, 16) {
        let (f, m) = oracle::gen_structured(r);
        planted = m;
        f
    } else if r.chance(1, 40) {
        // around the threshold: hard enough for restarts, reductions and inprocessing
        let n = 50 + r.below(90);
        (0..n * (40 + r.below(6)) / 10)
            .map(|_| {
                let mut k: Vec<i32> = Vec::new();
                while k.len() < 3 {
                    let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                    if !k.contains(&l) && !k.contains(&-l) {
                        k.push(l);
                    }
                }
                k
            })
            .collect()
    } else {
        oracle::gen_cnf(r)
    };
    let mut n = oracle::num_vars(&f).max(1);
    let route = r.below(5);
    c.mark(&f);
    c.mark(route);
    c.note = format!("{f:?}");
    let mut out = Solved { n, f: f.clone(), ans: Answer::Error("not solved".into()), s: None, at_load: false, how: String::new(), planted };
    let sorry = |e: SolverError| match e {
        SolverError::EmptyClause | SolverError::RootLevelConflict(_) => Answer::Unsat,
        e => Answer::Error(format!("{e:?}")),
    };
    let mut s = match route {
        0 => {
            out.how = "vector".into();
            match Solver::try_from((cfg.clone(), f.as_ref())) {
                Ok(s) => s,
                Err(Ok(Certificate::UNSAT)) => {
                    out.ans = Answer::Unsat;
                    out.at_load = true;
                    return out;
                }
                Err(Ok(Certificate::SAT(_))) => {
                    out.ans = Answer::Error("SAT from loading".into());
                    return out;
                }
                Err(Err(e)) => {
                    out.ans = sorry(e);
                    out.at_load = true;
                    return out;
                }
            }
        }
        1 => {
            out.how = "file".into();
            n += r.below(3);
            out.n = n;
            let p = write(c, "s.cnf", &dimacs(r, n, &f));
            match build(&p, cfg) {
                Ok(s) => s,
                Err(e) => {
                    out.ans = sorry(e);
                    out.at_load = true;
                    return out;
                }
            }
        }
        _ => {
            let grow = route == 4;
            out.how = if grow { "variables one by one".into() } else { "clauses and assignments".into() };
            let mut s = empty_solver(if grow { 0 } else { n }, cfg);
            let mut todo: Vec<Vec<i32>> = f.clone();
            for l in 0..r.below(4) {
                // assignments the user adds
                if r.chance(1, 3) {
                    let a = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                    todo.insert(r.below(todo.len() + 1), vec![a, i32::MAX]);
                    out.f.push(vec![a]);
                    f.push(vec![a]);
                    let _ = l;
                }
            }
            c.note = format!("{todo:?} ({} marks an assignment)", i32::MAX);
            for k in &todo {
                let asn = k.last() == Some(&i32::MAX);
                let k: &[i32] = if asn { &k[..1] } else { k };
                while s.asg.num_vars < k.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0) {
                    s.add_var();
                }
                let res = if asn { s.add_assignment(k[0]).map(|_| ()) } else { s.add_clause(k).map(|_| ()) };
                if let Err(e) = res {
                    out.ans = sorry(e);
                    out.at_load = true;
                    out.n = s.asg.num_vars;
                    out.s = Some(s);
                    return out;
                }
            }
            out.n = s.asg.num_vars;
            s
        }
    };
    out.ans = match s.solve() {
        Ok(Certificate::SAT(v)) => Answer::Sat(v),
        Ok(Certificate::UNSAT) => Answer::Unsat,
        Err(e) => Answer::Error(format!("{e:?}")),
    };
    out.s = Some(s);
    out
}
pub fn check_model(n: usize, f: &[Vec<i32>], v: &[i32]) -> Result<(), String> {
    if v.len() != n {
        return Err(format!("the model has {} literals for {n} variables: {v:?}", v.len()));
    }
    for (i, l) in v.iter().enumerate() {
        if l.unsigned_abs() as usize != i + 1 {
            return Err(format!("position {i} of the model holds {l}: {v:?}"));
        }
    }
    let mut m = vec![false; n + 1];
    for l in v {
        m[l.unsigned_abs() as usize] = *l > 0;
    }
    match oracle::satisfies(f, &m) {
        Some(i) => Err(format!("the model {v:?} violates {:?}", f[i])),
        None => Ok(()),
    }
}
fn bin_solve(r: &mut Rng, c: &mut Case, proof: bool) -> Result<(Vec<Vec<i32>>, usize, i32, String, Option<String>), String> {
    let f = if r.chance(1, 8) { oracle::gen_structured(r).0 } else { oracle::gen_cnf(r) };
    let n = oracle::num_vars(&f).max(1);
    c.mark(&f);
    let text = dimacs(r, n, &f);
    c.note = format!("splr on {text:?}");
    let p = write(c, "b.cnf", &text);
    for k in ["ans.txt", "proof.drat"] {
        let _ = std::fs::remove_file(Path::new(&c.dir).join(k));
    }
    let mut cmd = std::process::Command::new(Path::new(&c.bin).join("splr"));
    cmd.args(["-q", "-C", "-o"]).arg(&c.dir).args(["-r", "ans.txt"]);
    if proof {
        cmd.arg("-c");
    }
    let out = cmd.arg(&p).current_dir(&c.dir).stdin(std::process::Stdio::null()).output().map_err(|e| format!("running splr: {e}"))?;
    let ans = std::fs::read_to_string(Path::new(&c.dir).join("ans.txt")).unwrap_or_default();
    let drat = if proof { std::fs::read_to_string(Path::new(&c.dir).join("proof.drat")).ok() } else { None };
    Ok((f, n, out.status.code().unwrap_or(-1), ans, drat))
}
fn have_bin(c: &Case) -> bool {
    !c.bin.is_empty() && Path::new(&c.bin).join("splr").exists() && Path::new(&c.bin).join("dmcr").exists()
}

// ---------------------------------------------------------------- C05
fn extend(r: &Rng, c: &mut Case) -> Result<(), String> {
    // records as elimination leaves them: variable by variable, each mentioning only variables that remain
    let n = 2 + r.below(9);
    let mut vars: Vec<usize> = (1..=n).collect();
    r.shuffle(&mut vars);
    let gone: Vec<usize> = vars[..r.below(n)].to_vec();
    let mut s = empty_solver(n, &quiet());
    let mut elim: Vec<Lit> = Vec::new();
    let mut recs: Vec<Vec<i32>> = Vec::new();
    for (i, v) in gone.iter().enumerate() {
        let t = *v as i32 * if r.chance(1, 2) { 1 } else { -1 };
        let rest = &vars[i + 1..];
        for _ in 0..r.below(5) {
            let mut k = vec![t];
            for u in rest {
                if r.chance(1, 3) {
                    k.push(*u as i32 * if r.chance(1, 2) { 1 } else { -1 });
                }
            }
            elim.extend(k.iter().map(|l| lit(*l)));
            elim.push(Lit::from(k.len()));
            recs.push(k);
        }
        elim.push(lit(-t));
        elim.push(Lit::from(1usize));
    }
    for v in &vars[gone.len()..] {
        s.asg.assign_at_root_level(Lit::from((*v, r.chance(1, 2)))).map_err(|e| format!("{e:?}"))?;
    }
    let before: Vec<Option<bool>> = (0..=n).map(|v| s.asg.assign(v)).collect();
    s.asg.eliminated.append(&mut elim);
    c.note = format!("records {recs:?} for {gone:?}, assignment {before:?}");
    c.mark(&c.note.clone());
    c.nontrivial = recs.len() > 1;
    let ext = s.asg.extend_model(&mut s.cdb);
    for v in &vars[gone.len()..] {
        if ext[*v] != before[*v] {
            return Err(format!("extending {before:?} changes variable {v}, which has no record ({recs:?})"));
        }
    }
    for k in &recs {
        if !k.iter().any(|l| ext[l.unsigned_abs() as usize] == Some(*l > 0)) {
            return Err(format!("the extended assignment {ext:?} violates the recorded clause {k:?} (records {recs:?}, before {before:?})"));
        }
    }
    Ok(())
}
pub fn c05(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if r.chance(1, 4) {
        return extend(r, c);
    }
    if have_bin(c) && r.chance(1, 200) {
        let (f, n, code, ans, _) = bin_solve(r, c, false)?;
        if code == 10 {
            c.nontrivial = true;
            let Some(l) = ans.lines().find(|l| l.starts_with("v ")) else {
                return Err(format!("splr ends with 10, but its answer file has no model: {ans:?} ({f:?})"));
            };
            let v: Vec<i32> = l[2..].split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
            if v.last() != Some(&0) || !ans.lines().any(|l| l.starts_with("s SATISFIABLE")) {
                return Err(format!("the answer file is not in the format of SAT answers: {ans:?}"));
            }
            check_model(n, &f, &v[..v.len() - 1]).map_err(|e| format!("splr: {e} ({f:?})"))?;
        }
        return Ok(());
    }
    let cfg = random_config(r);
    let x = solve_case(r, c, &cfg);
    if let Answer::Sat(v) = &x.ans {
        c.nontrivial = true;
        check_model(x.n, &x.f, v).map_err(|e| format!("{e} ({}; {:?})", x.how, x.f))?;
    }
    if let Answer::Error(e) = &x.ans
        && e.contains("SolverBug")
    {
        return Err(format!("the solver's own validator rejects its model ({}; {:?})", x.how, x.f));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06 (whole runs)
fn truly_unsat(f: &Vec<Vec<i32>>, n: usize) -> Option<bool> {
    if n <= 26 { Some(!oracle::sat(f)) } else { None }
}
pub fn c06s(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if have_bin(c) && r.chance(1, 200) {
        let (f, n, code, ans, _) = bin_solve(r, c, false)?;
        if code == 20 {
            c.nontrivial = true;
            if truly_unsat(&f, n) == Some(false) {
                return Err(format!("splr ends with 20 on the satisfiable {f:?}"));
            }
        }
        if code == 10 && ans.contains("UNSAT") {
            return Err(format!("splr ends with 10, but writes {ans:?} for {f:?}"));
        }
        return Ok(());
    }
    let mut cfg = random_config(r);
    let p = format!("p{}.drat", c.index % 4);
    let cert = r.chance(1, 2);
    if cert {
        cfg.use_certification = true;
        cfg.io_odir = PathBuf::from(&c.dir);
        cfg.io_pfile = PathBuf::from(&p);
    }
    let mut x = solve_case(r, c, &cfg);
    if let Answer::Unsat = x.ans {
        c.nontrivial = true;
        if x.surely_sat() {
            return Err(format!("UNSAT is reported for a satisfiable formula ({}; {:?})", x.how, x.f));
        }
        match truly_unsat(&x.f, x.n) {
            Some(_) => (),
            None if x.f.len() < 280 && x.n < 60 => (),
            None if cert => {
                // too large to decide here: its proof has to be right
                if let Some(s) = x.s.as_mut() {
                    s.save_certification();
                    let text = std::fs::read_to_string(Path::new(&c.dir).join(&p)).unwrap_or_default();
                    let proof = oracle::parse_drat(&text).map_err(|e| e.to_string())?;
                    oracle::check_drat(&x.f, &proof).map_err(|e| format!("UNSAT is reported without a proof: {e} ({}; {:?})", x.how, x.f))?;
                }
            }
            None => (),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
fn check_format(text: &str) -> Result<(), String> {
    if !text.ends_with("0\n") {
        return Err(format!("the proof does not end with a terminated line: {:?}", &text[text.len().saturating_sub(60)..]));
    }
    let lines: Vec<&str> = text.lines().collect();
    if lines.last() != Some(&"0") {
        return Err(format!("the proof does not end with the empty clause but with {:?}", lines.last()));
    }
    for (i, l) in lines.iter().enumerate() {
        let body = l.strip_prefix("d ").unwrap_or(l);
        let t: Vec<&str> = body.split_whitespace().collect();
        if t.last() != Some(&"0") || t[..t.len() - 1].iter().any(|x| x.parse::<i32>().ok().filter(|v| *v != 0).is_none()) {
            return Err(format!("line {} of the proof is {l:?}", i + 1));
        }
        if t.len() == 1 && i + 1 != lines.len() {
            return Err(format!("line {} of {} of the proof is the empty clause", i + 1, lines.len()));
        }
    }
    Ok(())
}
fn record(r: &Rng, c: &mut Case) -> Result<(), String> {
    let n = 4 + r.below(2000);
    let big = r.chance(1, 12);
    let p = format!("q{}.drat", c.index % 4);
    let mut cfg = quiet();
    cfg.use_certification = true;
    cfg.io_odir = PathBuf::from(&c.dir);
    cfg.io_pfile = PathBuf::from(&p);
    let mut s = empty_solver(n, &cfg);
    let mut want: Vec<String> = Vec::new();
    let mut live: Vec<ClauseId> = Vec::new();
    let steps = if big { 9000 + r.below(20000) } else { r.below(400) };
    fn line(k: &[i32]) -> String {
        k.iter().map(|l| format!("{l} ")).collect::<String>() + "0"
    }
    for _ in 0..steps {
        let asg: &mut AssignStack = &mut s.asg;
        let cdb: &mut ClauseDB = &mut s.cdb;
        match r.below(8) {
            0 => {
                let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                cdb.certificate_add_assertion(lit(l));
                want.push(line(&[l]));
            }
            1..=4 => {
                let mut k: Vec<i32> = Vec::new();
                for _ in 0..2 + r.below(if r.chance(1, 50) { 300 } else { 6 }) {
                    let l = (1 + r.below(n) as i32) * if r.chance(1, 2) { 1 } else { -1 };
                    if !k.contains(&l) && !k.contains(&-l) {
                        k.push(l);
                    }
                }
                if k.len() < 2 {
                    continue;
                }
                let mut v: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
                if let RefClause::Clause(i) = cdb.new_clause(asg, &mut v, r.chance(1, 2)) {
                    want.push(line(&k));
                    live.push(i);
                }
            }
            5 | 6 if !live.is_empty() => {
                let at = r.below(live.len());
                let i = live.swap_remove(at);
                let k: Vec<i32> = cdb[i].iter().map(|l| num(*l)).collect();
                cdb.remove_clause(i);
                want.push(format!("d {}", line(&k)));
            }
            7 if !live.is_empty() => {
                let at = r.below(live.len());
                let i = live[at];
                let k: Vec<i32> = cdb[i].iter().map(|l| num(*l)).collect();
                let d = *r.pick(&k);
                if let (RefClause::Clause(j), true) = (cdb.transform_by_elimination(i, lit(d)), k.len() > 2) {
                    if i != j {
                        return Err("shortening a clause gives another clause".into());
                    }
                    let now: Vec<i32> = cdb[i].iter().map(|l| num(*l)).collect();
                    want.push(line(&now));
                    want.push(format!("d {}", line(&k)));
                }
            }
            _ => (),
        }
    }
    s.save_certification();
    want.push("0".into());
    c.note = format!("{} records over {n} variables", want.len());
    c.mark(&want);
    c.nontrivial = want.len() > 20;
    let text = std::fs::read_to_string(Path::new(&c.dir).join(&p)).map_err(|e| format!("the proof file: {e}"))?;
    let got: Vec<&str> = text.lines().collect();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g.trim_end() == w => (),
            g => return Err(format!("record {} of {} is {w:?}, the file has {g:?}", i + 1, want.len())),
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} records, but {} lines; the first extra line is {:?}", want.len(), got.len(), got[want.len()]));
    }
    check_format(&text)
}
pub fn c13(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if r.chance(1, 5) {
        return record(r, c);
    }
    if have_bin(c) && r.chance(1, 100) {
        let (f, n, code, _, drat) = bin_solve(r, c, true)?;
        if code == 20 && truly_unsat(&f, n) != Some(false) {
            let Some(text) = drat else {
                return Err(format!("splr -c writes no proof file for {f:?}"));
            };
            let proof = oracle::parse_drat(&text).map_err(|e| format!("splr -c on {f:?}: {e}"))?;
            oracle::check_drat(&f, &proof).map_err(|e| format!("splr -c on {f:?}: {e}"))?;
            if !text.is_empty() {
                check_format(&text).map_err(|e| format!("splr -c on {f:?}: {e}"))?;
            }
            c.nontrivial = !text.is_empty();
        }
        return Ok(());
    }
    let mut cfg = random_config(r);
    let p = format!("p{}.drat", c.index % 4);
    cfg.use_certification = true;
    cfg.io_odir = PathBuf::from(&c.dir);
    cfg.io_pfile = PathBuf::from(&p);
    let mut x = solve_case(r, c, &cfg);
    if matches!(x.ans, Answer::Unsat) && x.s.is_some() && x.surely_sat() {
        return Ok(()); // a wrong verdict is C06's
    }
    if let (Answer::Unsat, Some(s)) = (&x.ans, x.s.as_mut()) {
        s.save_certification();
        let text = std::fs::read_to_string(Path::new(&c.dir).join(&p)).map_err(|e| format!("the proof file: {e}"))?;
        check_format(&text).map_err(|e| format!("{e} ({}; {:?})", x.how, x.f))?;
        let proof = oracle::parse_drat(&text).map_err(|e| e.to_string())?;
        oracle::check_drat(&x.f, &proof).map_err(|e| format!("{e} ({}; {:?})", x.how, x.f))?;
        c.nontrivial = proof.len() > 2;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
pub fn c15(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let n = 1 + r.below(10);
    let f: Vec<Vec<i32>> = (0..r.below(16)).map(|_| raw_clause(r, n, *r.pick(&[2, 3, 4, 7]))).collect();
    let cfg = quiet();
    // mostly total assignments, sometimes partial or contradictory
    let mut v: Vec<i32> = (1..=n as i32).filter(|_| !r.chance(1, 12)).map(|x| if r.chance(1, 2) { x } else { -x }).collect();
    if r.chance(1, 2) && n <= 10 {
        // a model, if there is one
        if let Some(m) = Models::of(&f, n).iter().next() {
            v = model_of(m, n);
            if r.chance(1, 3) {
                let k = r.below(n);
                v[k] = -v[k];
            }
        }
    }
    if r.chance(1, 10) && !v.is_empty() {
        let l = *r.pick(&v);
        v.push(if r.chance(1, 2) { -l } else { l });
    }
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    c.note = format!("{n} variables, {f:?}, assignment {v:?}");
    c.mark(&c.note.clone());
    let Some(mut s) = load(n, &f, &cfg)? else {
        return Ok(());
    };
    let fix = fixed(&s.asg);
    // learnt clauses are not part of the problem
    for _ in 0..r.below(3) {
        let mut k = raw_clause(r, n, 6);
        k.sort();
        k.dedup();
        if k.len() > 2 && !k.iter().any(|l| k.contains(&-l)) {
            let mut l: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
            s.cdb.new_clause(&mut s.asg, &mut l, true);
        }
    }
    let problem: Vec<Vec<i32>> = clauses(&s.cdb).into_iter().filter(|c| !c.learnt).map(|c| c.lits).collect();
    let clash = v.iter().any(|l| v.contains(&-l) || fix.contains(&-l));
    if have_bin(c) && r.chance(1, 150) && !v.is_empty() {
        let p = write(c, "m.cnf", &dimacs(r, n, &f));
        let a = write(c, "m.ans", &format!("c answer\ns SATISFIABLE: m.cnf\nv {} 0\n", v.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(" ")));
        let out = std::process::Command::new(Path::new(&c.bin).join("dmcr")).args(["-C", "-a"]).arg(&a).arg(&p).stdin(std::process::Stdio::null()).output().map_err(|e| format!("running dmcr: {e}"))?;
        let t = String::from_utf8_lossy(&out.stdout).to_string();
        let ok = problem.iter().all(|k| k.iter().any(|l| v.contains(l) || fix.contains(l)));
        let want = if clash { "unsat problem but no proof" } else if ok { "A valid assignment set for" } else { "An invalid assignment set for" };
        if !t.contains(want) || (want.starts_with("A ") && t.contains("An invalid")) {
            return Err(format!("dmcr prints {t:?} for {f:?} and {v:?}, expected {want:?}"));
        }
        c.nontrivial = true;
    }
    match s.inject_assignment(&v) {
        Ok(()) if clash || v.is_empty() => return Err(format!("loading the assignment {v:?} over the fixed {fix:?} succeeds")),
        Ok(()) => (),
        Err(_) if clash || v.is_empty() => return Ok(()),
        Err(e) => return Err(format!("loading the consistent assignment {v:?} over the fixed {fix:?} gives {e:?}")),
    }
    let mut want: Vec<i32> = fix.iter().chain(v.iter()).copied().collect();
    want.sort_by_key(|l| l.abs());
    want.dedup();
    if fixed(&s.asg) != want || (1..=n).filter(|v| s.asg.assign(*v).is_some()).count() != want.len() {
        return Err(format!("loading {v:?} over {fix:?} sets {:?}", fixed(&s.asg)));
    }
    c.nontrivial = true;
    let fails: Vec<&Vec<i32>> = problem.iter().filter(|k| !k.iter().any(|l| want.contains(l))).collect();
    match s.validate() {
        None if fails.is_empty() => Ok(()),
        None => Err(format!("the validator accepts {want:?}, but {:?} has no true literal ({f:?})", fails[0])),
        Some(k) if fails.iter().any(|x| **x == k) => Ok(()),
        Some(k) => Err(format!("the validator blames {k:?} under {want:?}; clauses without a true literal: {fails:?} ({f:?})")),
    }
}

// ---------------------------------------------------------------- C16
pub fn c16(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if r.chance(1, 4) {
        // the count against the limit
        let n = 3 + r.below(20);
        let lim = if r.chance(1, 4) { 0 } else if r.chance(1, 12) { usize::MAX - r.below(3) } else { 1 + r.below(30) };
        let mut cfg = quiet();
        cfg.c_cls_lim = lim;
        let mut s = empty_solver(n, &cfg);
        let mut live: Vec<ClauseId> = Vec::new();
        for _ in 0..r.below(60) {
            if r.chance(1, 4) && !live.is_empty() {
                let i = live.swap_remove(r.below(live.len()));
                s.cdb.remove_clause(i);
            } else {
                let mut k = raw_clause(r, n, 5);
                k.sort();
                k.dedup();
                if k.len() < 2 || k.iter().any(|l| k.contains(&-l)) {
                    continue;
                }
                let mut l: Vec<Lit> = k.iter().map(|l| lit(*l)).collect();
                if let RefClause::Clause(i) = s.cdb.new_clause(&mut s.asg, &mut l, r.chance(1, 2)) {
                    live.push(i);
                }
            }
            let over = lim != 0 && live.len() > lim;
            match s.cdb.check_size() {
                Ok(_) if !over => (),
                Err(SolverError::OutOfMemory) if over => (),
                x => return Err(format!("{} clauses, limit {lim}: {x:?}", live.len())),
            }
            if over && r.chance(1, 4) {
                return match s.solve() {
                    Err(SolverError::OutOfMemory) => Ok(()),
                    x => Err(format!("solving with {} clauses over the limit {lim} gives {x:?}", live.len())),
                };
            }
        }
        c.note = format!("{} clauses, limit {lim}", live.len());
        c.mark((n, lim, live.len()));
        c.nontrivial = true;
        return Ok(());
    }
    let mut cfg = random_config(r);
    let unlimited = r.chance(1, 8);
    if !unlimited {
        if r.chance(5, 6) {
            cfg.c_cls_lim = 1 + r.below(*r.pick(&[10, 60, 200, 600]));
        }
        if r.chance(1, 3) {
            cfg.c_timeout = *r.pick(&[0.0, 0.4, 1.0]);
        }
    }
    cfg.enable_eliminator = !r.chance(1, 5);
    let lim = cfg.c_cls_lim;
    let t = cfg.c_timeout;
    let x = solve_case(r, c, &cfg);
    c.mark((lim, t.to_bits()));
    let ctx = |x: &Solved| format!("clause limit {lim}, time limit {t}, {}; {:?}", x.how, x.f);
    match &x.ans {
        Answer::Sat(v) => {
            check_model(x.n, &x.f, v).map_err(|e| format!("{e} ({})", ctx(&x)))?;
        }
        Answer::Unsat => {
            if x.surely_sat() {
                return Err(format!("UNSAT is reported for a satisfiable formula ({})", ctx(&x)));
            }
        }
        Answer::Error(e) => {
            c.nontrivial = true;
            if unlimited {
                return Err(format!("without limits the answer is {e} ({})", ctx(&x)));
            }
            if !(e == "OutOfMemory" && lim != 0 || e == "TimeOut" && t < 10.0) {
                return Err(format!("the answer is {e} ({})", ctx(&x)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17
pub fn c17(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let cfg = random_config(r);
    let big = r.chance(1, 25);
    let n0 = r.below(if big { 100 } else { 5 });
    let total = n0 + 1 + r.below(if big { 80 } else { 12 });
    let mut a = empty_solver(n0, &cfg);
    let mut b = empty_solver(total, &cfg);
    let mut n = n0;
    let mut f: Vec<Vec<i32>> = Vec::new();
    let mut log = format!("{n0} variables: ");
    let mut failed = false;
    while !(n == total && r.chance(1, 12)) {
        if n < total && r.chance(1, 3) {
            log.push_str("grow ");
            let pre = (stored(&a.cdb), fixed(&a.asg));
            let k = a.add_var();
            if k != n + 1 || a.asg.num_vars != n + 1 {
                return Err(format!("{log}: adding a variable to {n} returns {k}, the solver has {}", a.asg.num_vars));
            }
            n += 1;
            if (stored(&a.cdb), fixed(&a.asg)) != pre {
                return Err(format!("{log}: adding a variable changes clauses or assignments"));
            }
            if a.asg.assign(n).is_some() {
                return Err(format!("{log}: the new variable {n} is assigned"));
            }
            check_index(&a.asg, &a.cdb).map_err(|e| format!("{log}: {e}"))?;
            check_queue(&a.asg, false).map_err(|e| format!("{log}: {e}"))?;
            for l in [n as i32 + 1, -(n as i32) - 1] {
                if !matches!(a.add_assignment(l).map(|_| ()), Err(SolverError::InvalidLiteral)) || !matches!(a.add_clause([l]).map(|_| ()), Err(SolverError::InvalidLiteral)) {
                    return Err(format!("{log}: {l} is accepted with {n} variables"));
                }
            }
            continue;
        }
        if n == 0 {
            continue;
        }
        let asn = r.chance(1, 10);
        let mut k = raw_clause(r, n, if asn { 1 } else { 4 });
        if asn {
            k.truncate(1);
        }
        if r.chance(1, 2) && !k.contains(&-(n as i32)) {
            k[0] = n as i32; // the newest variable has to work at once
        }
        log.push_str(&format!("{}{k:?} ", if asn { "assign " } else { "" }));
        let (ra, rb) = if asn {
            (a.add_assignment(k[0]).map(|_| ()).map_err(|e| kind(&e)), b.add_assignment(k[0]).map(|_| ()).map_err(|e| kind(&e)))
        } else {
            (a.add_clause(&k).map(|_| ()).map_err(|e| kind(&e)), b.add_clause(&k).map(|_| ()).map_err(|e| kind(&e)))
        };
        f.push(k.clone());
        if ra != rb {
            return Err(format!("{log}: {k:?} gives {ra:?} after growing and {rb:?} when declared"));
        }
        if ra.is_err() {
            failed = true;
            break;
        }
        if stored(&a.cdb) != stored(&b.cdb) || fixed(&a.asg) != fixed(&b.asg) {
            return Err(format!("{log}: after growing {:?} {:?}, declared {:?} {:?}", stored(&a.cdb), fixed(&a.asg), stored(&b.cdb), fixed(&b.asg)));
        }
        if f.len() > total * 5 {
            break;
        }
    }
    c.note = log.clone();
    c.mark(&log);
    if failed {
        return Ok(());
    }
    while n < total {
        n = a.add_var();
    }
    c.nontrivial = true;
    let (xa, xb) = (a.solve(), b.solve());
    match (&xa, &xb) {
        (Ok(Certificate::SAT(v)), Ok(Certificate::SAT(w))) => {
            check_model(n, &f, v).map_err(|e| format!("{log}: after growing: {e}"))?;
            check_model(n, &f, w).map_err(|e| format!("{log}: declared: {e}"))
        }
        (Ok(Certificate::UNSAT), Ok(Certificate::UNSAT)) => Ok(()),
        _ => Err(format!("{log}: after growing {xa:?}, declared {xb:?}")),
    }
}
