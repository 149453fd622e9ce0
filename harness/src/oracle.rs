//! Independent oracles: naive model evaluation, a small DPLL, and a DRAT checker.
use crate::rng::Rng;
pub type Cnf = Vec<Vec<i32>>;

pub fn num_vars(f: &Cnf) -> usize {
    f.iter().flatten().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
}

/// does `model` (values indexed by var) satisfy f?
pub fn satisfies(f: &[Vec<i32>], model: &[bool]) -> Option<usize> {
    f.iter().position(|c| !c.iter().any(|&l| model[l.unsigned_abs() as usize] == (l > 0)))
}

/// plain DPLL with unit propagation: satisfiable?
pub fn sat(f: &Cnf) -> bool {
    let n = num_vars(f);
    let mut val = vec![0i8; n + 1];
    dpll(f, &mut val)
}
pub fn sat_with(f: &Cnf, assumps: &[i32], n: usize) -> bool {
    let n = n.max(num_vars(f)).max(assumps.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0));
    let mut val = vec![0i8; n + 1];
    for &a in assumps {
        let v = a.unsigned_abs() as usize;
        let s = if a > 0 { 1 } else { -1 };
        if val[v] == -s {
            return false;
        }
        val[v] = s;
    }
    dpll(f, &mut val)
}
fn lv(val: &[i8], l: i32) -> i8 {
    let v = val[l.unsigned_abs() as usize];
    if l > 0 { v } else { -v }
}
fn dpll(f: &Cnf, val: &mut Vec<i8>) -> bool {
    let mut trail: Vec<usize> = Vec::new();
    let undo = |val: &mut Vec<i8>, t: &Vec<usize>| {
        for &v in t {
            val[v] = 0;
        }
    };
    let mut branch: i32;
    loop {
        let mut changed = false;
        branch = 0;
        for c in f.iter() {
            let mut free = 0;
            let mut cnt = 0;
            let mut ok = false;
            for &l in c {
                match lv(val, l) {
                    1 => {
                        ok = true;
                        break;
                    }
                    0 => {
                        if free != l {
                            cnt += 1;
                            free = l;
                        }
                    }
                    _ => (),
                }
            }
            if ok {
                continue;
            }
            if cnt == 0 {
                undo(val, &trail);
                return false;
            }
            if cnt == 1 {
                let v = free.unsigned_abs() as usize;
                val[v] = if free > 0 { 1 } else { -1 };
                trail.push(v);
                changed = true;
            } else if branch == 0 {
                branch = free;
            }
        }
        if !changed {
            break;
        }
    }
    if branch == 0 {
        undo(val, &trail);
        return true;
    }
    let v = branch.unsigned_abs() as usize;
    for s in [1i8, -1] {
        val[v] = s;
        if dpll(f, val) {
            val[v] = 0;
            undo(val, &trail);
            return true;
        }
        val[v] = 0;
    }
    undo(val, &trail);
    false
}

/// Is clause `c` implied by `f`?
pub fn implied(f: &Cnf, c: &[i32]) -> bool {
    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
    !sat_with(f, &neg, 0)
}

/// all models over vars 1..=n as bitmaps (n small)
pub fn models(f: &[Vec<i32>], n: usize) -> Vec<u32> {
    (0..(1u32 << n))
        .filter(|m| f.iter().all(|c| c.iter().any(|&l| ((m >> (l.unsigned_abs() - 1)) & 1 == 1) == (l > 0))))
        .collect()
}

pub enum DratError {
    BadLine(usize, String),
    NotRat(usize, Vec<i32>),
    NotRefuted,
}
impl std::fmt::Display for DratError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            DratError::BadLine(n, s) => write!(f, "line {n} of the proof is not DRAT: {s:?}"),
            DratError::NotRat(n, c) => write!(f, "step {n} of the proof adds {c:?}, which is neither RUP nor RAT"),
            DratError::NotRefuted => write!(f, "the proof never derives the empty clause"),
        }
    }
}
pub enum Step {
    Add(Vec<i32>),
    Del(Vec<i32>),
}
pub fn parse_drat(text: &str) -> Result<Vec<Step>, DratError> {
    let mut v = Vec::new();
    for (n, line) in text.lines().enumerate() {
        if line.starts_with('c') || line.trim().is_empty() {
            continue;
        }
        // the header splr writes in front of the proof is one "s UNSATISFIABLE" line
        if line.starts_with("s ") {
            continue;
        }
        let (del, rest) = match line.strip_prefix("d ") {
            Some(r) => (true, r),
            None => (false, line),
        };
        let mut lits = Vec::new();
        let mut closed = false;
        for t in rest.split_whitespace() {
            match t.parse::<i32>() {
                Ok(0) if !closed => closed = true,
                Ok(l) if !closed && l != 0 => lits.push(l),
                _ => return Err(DratError::BadLine(n + 1, line.to_string())),
            }
        }
        if !closed {
            return Err(DratError::BadLine(n + 1, line.to_string()));
        }
        v.push(if del { Step::Del(lits) } else { Step::Add(lits) });
    }
    Ok(v)
}

/// unit propagation of `db` under `val`; true = conflict. Quadratic but independent of the solver.
fn up(db: &[Vec<i32>], val: &mut [i8]) -> bool {
    loop {
        let mut changed = false;
        for c in db {
            let mut free = 0;
            let mut many = false;
            let mut ok = false;
            for &l in c {
                match lv(val, l) {
                    1 => {
                        ok = true;
                        break;
                    }
                    0 => {
                        if free != 0 && free != l {
                            many = true;
                        }
                        free = l;
                    }
                    _ => (),
                }
            }
            if ok || many {
                continue;
            }
            if free == 0 {
                return true;
            }
            val[free.unsigned_abs() as usize] = if free > 0 { 1 } else { -1 };
            changed = true;
        }
        if !changed {
            return false;
        }
    }
}
fn rup(db: &[Vec<i32>], fixed: &[i8], c: &[i32]) -> bool {
    let mut val = fixed.to_vec();
    for &l in c {
        let v = l.unsigned_abs() as usize;
        let s = if l > 0 { -1 } else { 1 };
        if val[v] == -s {
            return true; // satisfied at the root or a tautology
        }
        val[v] = s;
    }
    up(db, &mut val)
}
/// Forward DRAT check in the mode of drat-trim and gratgen: literals propagated at the root stay
/// true even when the clause that implied them is deleted (deletions of units are ignored).
pub fn check_drat(f: &Cnf, proof: &[Step]) -> Result<usize, DratError> {
    let norm = |c: &Vec<i32>| {
        let mut c = c.clone();
        c.sort();
        c.dedup();
        c
    };
    // tautologies say nothing; splr does not load them
    let mut db: Vec<Vec<i32>> = f.iter().map(norm).filter(|c| !c.iter().any(|l| c.contains(&-l))).collect();
    let mut n = num_vars(f);
    for s in proof {
        let (Step::Add(c) | Step::Del(c)) = s;
        n = n.max(c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0));
    }
    let mut fixed = vec![0i8; n + 1];
    if up(&db, &mut fixed) {
        return Ok(0);
    }
    for (i, s) in proof.iter().enumerate() {
        match s {
            Step::Add(c) => {
                let mut ok = rup(&db, &fixed, c);
                if !ok && !c.is_empty() {
                    let p = c[0];
                    ok = fixed[p.unsigned_abs() as usize] == 0
                        && db.iter().filter(|d| d.contains(&-p)).all(|d| {
                            let mut r = c.clone();
                            r.extend(d.iter().filter(|l| **l != -p));
                            rup(&db, &fixed, &r)
                        });
                }
                if !ok {
                    return Err(DratError::NotRat(i + 1, c.clone()));
                }
                if c.is_empty() {
                    return Ok(i + 1);
                }
                db.push(norm(c));
                if up(&db, &mut fixed) {
                    return Ok(i + 1);
                }
            }
            Step::Del(c) => {
                if c.len() < 2 {
                    continue;
                }
                let c = norm(c);
                if let Some(p) = db.iter().position(|d| *d == c) {
                    db.swap_remove(p);
                }
            }
        }
    }
    Err(DratError::NotRefuted)
}

/// a random CNF in one of several shapes
pub fn gen_cnf(r: &mut Rng) -> Cnf {
    let shape = r.below(8);
    let n = match shape {
        0 => 1 + r.below(4),
        1 => 3 + r.below(6),
        2..=4 => 6 + r.below(14),
        _ => 12 + r.below(40),
    };
    let ratio = match shape {
        0 | 1 => 1.0 + r.below(50) as f64 / 10.0,
        2 => 2.0 + r.below(30) as f64 / 10.0,
        _ => 3.0 + r.below(20) as f64 / 10.0,
    };
    let m = (n as f64 * ratio) as usize + 1;
    let mut f = Vec::new();
    for _ in 0..m {
        let k = match shape {
            0 => 1 + r.below(3),
            1 => 1 + r.below(4),
            2 => [2, 2, 3, 3, 3, 4, 5][r.below(7)],
            3 => [2, 3, 3, 3, 3, 3][r.below(6)],
            4 => 3,
            5 => 3,
            6 => [2, 3, 3, 3, 3, 4][r.below(6)],
            _ => [2, 2, 3, 3, 4, 6][r.below(6)],
        };
        let mut c: Vec<i32> = Vec::new();
        for _ in 0..k {
            let v = 1 + r.below(n) as i32;
            let l = if r.chance(1, 2) { v } else { -v };
            // mostly clean clauses; duplicates and tautologies now and then
            if c.contains(&l) || c.contains(&-l) {
                if !r.chance(1, 12) {
                    continue;
                }
            }
            c.push(l);
        }
        if !c.is_empty() {
            f.push(c);
        }
    }
    if shape == 7 {
        // equivalences / gates, which make variable elimination and subsumption work
        for _ in 0..n / 3 {
            let a = 1 + r.below(n) as i32;
            let b = 1 + r.below(n) as i32;
            let c = 1 + r.below(n) as i32;
            if a != b && b != c && a != c {
                f.push(vec![-a, b]);
                f.push(vec![-a, c]);
                f.push(vec![a, -b, -c]);
            }
        }
    }
    f
}

/// larger formulas with a structure small random ones lack; with a model when one is built in
pub fn gen_structured(r: &mut Rng) -> (Cnf, Option<Vec<bool>>) {
    let kind = r.below(6);
    let n = match kind {
        0 => 16 + r.below(75),
        1 => 60 + r.below(120),
        2 => 8 + r.below(20),
        3 => 0,
        4 => 12 + r.below(60),
        _ => 20 + r.below(50),
    };
    let model: Vec<bool> = (0..=n).map(|_| r.chance(1, 2)).collect();
    let value = |l: i32| model[l.unsigned_abs() as usize] == (l > 0);
    let pick = |r: &Rng, k: usize| {
        let mut c: Vec<i32> = Vec::new();
        for _ in 0..k {
            let v = 1 + r.below(n) as i32;
            if !c.contains(&v) && !c.contains(&-v) {
                c.push(if r.chance(1, 2) { v } else { -v });
            }
        }
        c
    };
    let mut f: Cnf = Vec::new();
    let planted = r.chance(2, 3);
    match kind {
        0 => {
            // a few very wide clauses among short ones
            for _ in 0..2 + r.below(12) {
                let k = *r.pick(&[n / 4, n / 2, n, 3 * n]);
                f.push(pick(r, k.max(2)));
            }
            for _ in 0..n * (8 + r.below(30)) / 10 {
                f.push(pick(r, *r.pick(&[2, 3, 3, 3, 4])));
            }
        }
        1 => {
            for _ in 0..n * (25 + r.below(18)) / 10 {
                f.push(pick(r, *r.pick(&[2, 3, 3, 3, 3, 3, 3, 5])));
            }
        }
        2 => {
            // sparse parity constraints
            let odd = r.chance(1, 2);
            for i in 0..n - r.below(3) {
                let k = pick(r, *r.pick(&[2, 3, 3, 3, 4]));
                let mut par = k.iter().filter(|l| value(l.abs())).count() % 2 == 1;
                if odd && i == 0 {
                    par = !par;
                }
                for m in 0..1u32 << k.len() {
                    if (m.count_ones() % 2 == 1) != par {
                        f.push(k.iter().enumerate().map(|(j, l)| if m >> j & 1 == 1 { -l.abs() } else { l.abs() }).collect());
                    }
                }
            }
            f.retain(|c| !c.is_empty());
            return (f, if odd { None } else { Some(model) });
        }
        3 => {
            // pigeons and holes, with some of the variables negated throughout
            let holes = 2 + r.below(3);
            let pigeons = holes + r.below(2);
            let flip: Vec<i32> = (0..pigeons * holes).map(|_| if r.chance(1, 2) { 1 } else { -1 }).collect();
            let v = |p: usize, h: usize| (1 + p * holes + h) as i32 * flip[p * holes + h];
            for p in 0..pigeons {
                f.push((0..holes).map(|h| v(p, h)).collect());
            }
            for h in 0..holes {
                for p in 0..pigeons {
                    for q in 0..p {
                        f.push(vec![-v(p, h), -v(q, h)]);
                    }
                }
            }
            r.shuffle(&mut f);
            let sat = (pigeons == holes).then(|| {
                let mut m = vec![false; pigeons * holes + 1];
                for p in 0..pigeons {
                    for h in 0..holes {
                        m[1 + p * holes + h] = (p == h) == (flip[p * holes + h] == 1);
                    }
                }
                m
            });
            return (f, sat);
        }
        4 => {
            // chains of implications and equivalences
            let mut order: Vec<i32> = (1..=n as i32).collect();
            r.shuffle(&mut order);
            for w in order.windows(2) {
                let (a, b) = (if value(w[0]) { w[0] } else { -w[0] }, if value(w[1]) { w[1] } else { -w[1] });
                f.push(vec![-a, b]);
                if r.chance(2, 3) {
                    f.push(vec![a, -b]);
                }
            }
            for _ in 0..n {
                f.push(pick(r, *r.pick(&[2, 3, 3, 4, 9])));
            }
        }
        _ => {
            // gates with many inputs, and a variable with very many occurrences
            let hub = 1 + r.below(n) as i32;
            for _ in 0..n / 4 {
                let g = 1 + r.below(n) as i32;
                let mut ins = pick(r, 2 + r.below(n / 3));
                ins.retain(|l| l.abs() != g);
                if ins.is_empty() {
                    continue;
                }
                let g = if ins.iter().all(|l| value(*l)) == value(g) { g } else { -g };
                for l in &ins {
                    f.push(vec![-g, *l]);
                }
                ins.iter_mut().for_each(|l| *l = -*l);
                ins.push(g);
                f.push(ins);
            }
            for _ in 0..r.below(50) {
                let mut k = pick(r, 3);
                k.retain(|l| l.abs() != hub);
                k.push(if r.chance(1, 2) { hub } else { -hub });
                f.push(k);
            }
            for _ in 0..n * 2 {
                f.push(pick(r, *r.pick(&[3, 3, 4, 6])));
            }
        }
    }
    f.retain(|c| !c.is_empty());
    if planted {
        for c in f.iter_mut() {
            if !c.iter().any(|l| value(*l)) {
                let i = r.below(c.len());
                c[i] = -c[i];
            }
        }
        r.shuffle(&mut f);
        return (f, Some(model));
    }
    r.shuffle(&mut f);
    (f, None)
}
