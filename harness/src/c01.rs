//! literal encoding: every i32 below 2^30 in magnitude, in 1024 slices
use crate::{rng::Rng, run::Case};
use splr::{ClauseId, Lit, LitIF, VarId, ClauseIdIF};

const SLICES: u64 = 1024;
fn one(x: i32) -> Result<(), String> {
    let bad = |m: &str| Err(format!("number {x}: {m}"));
    let l = Lit::from(x);
    let v = x.unsigned_abs() as usize;
    if i32::from(l) != x || i32::from(&l) != x {
        return bad("does not come back from Lit unchanged");
    }
    if l.vi() != v || l.as_bool() != (x > 0) || bool::from(l) != (x > 0) {
        return bad("variable or sign of the literal is wrong");
    }
    if usize::from(l) != 2 * v + usize::from(x > 0) {
        return bad("table index is not 2v / 2v+1");
    }
    let n = !l;
    if i32::from(n) != -x || n.vi() != v || n.as_bool() == l.as_bool() || !n != l || n == l {
        return bad("negation is wrong");
    }
    if Lit::from((v as VarId, x > 0)) != l || Lit::from(usize::from(l)) != l || Lit::from(usize::from(l) as u32) != l {
        return bad("conversions from (variable, sign), index or word disagree");
    }
    let c = ClauseId::from(l);
    if !c.is_lifted_lit() || Lit::from(c) != l {
        return bad("literal packed in a clause word is not recovered");
    }
    // the same bits as an ordinary clause number
    let c = ClauseId::from(usize::from(l));
    if c.is_lifted_lit() || usize::from(c) != usize::from(l) {
        return bad("clause number is taken for a literal or changed");
    }
    if (l < n) != (usize::from(l) < usize::from(n)) {
        return bad("literal order differs from index order");
    }
    Ok(())
}
pub fn case(_r: &mut Rng, c: &mut Case) -> Result<(), String> {
    if c.index >= SLICES {
        if c.index == SLICES && ClauseId::default().is_lifted_lit() {
            return Err("the default clause reference is taken for a literal".into());
        }
        if c.index > SLICES + 2000 {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        return Ok(());
    }
    let top = 1i64 << 30;
    let w = top / SLICES as i64;
    let a = c.index as i64 * w;
    c.note = format!("numbers of magnitude {}..{}, both signs", a.max(1), a + w - 1);
    c.mark(c.index);
    c.nontrivial = true;
    for v in a.max(1)..a + w {
        one(v as i32)?;
        one(-v as i32)?;
    }
    Ok(())
}
