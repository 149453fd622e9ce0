//! Luby series against the recursive definition
use crate::{rng::Rng, run::Case};
use splr::types::LubySeries;

fn luby(n: u64) -> u64 {
    let k = 64 - n.leading_zeros() as u64;
    if n + 1 == 1 << k { 1 << (k - 1) } else { luby(n - (1 << (k - 1)) + 1) }
}
pub fn case(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    // case 0: one long run; others: random mixtures of draws (by either function) and restarts
    let mut g = LubySeries::default();
    let mut n = 0u64;
    let mut max = 1;
    let steps = if c.index == 0 { 3_000_000 } else { 1 + r.below(1 << (1 + r.below(14))) };
    let p = [0, 0, 50, 1000, 7][r.below(5)];
    let mixed = r.chance(1, 2);
    let mut restarts = 0;
    for k in 0..steps {
        if c.index > 0 && p > 0 && r.chance(1, p) {
            g.reset();
            n = 0;
            restarts += 1;
            continue;
        }
        n += 1;
        let e = luby(n + 1);
        max = max.max(e);
        let v = if mixed && r.chance(1, 2) { g.next().map_or(0, |x| x.get() as u64) } else { g.next_unchecked() as u64 };
        if v != e {
            c.note = format!("{steps} draws, restart probability 1/{p}");
            return Err(format!("draw {n} after the last of {restarts} restarts (step {k}) gives {v}, the Luby series has {e}"));
        }
        if g.max_value() as u64 != max {
            return Err(format!("max_value is {} after step {k}, the largest value produced is {max}", g.max_value()));
        }
    }
    c.note = format!("{steps} draws, {restarts} restarts, both functions: {mixed}");
    c.mark((steps, restarts, mixed));
    c.nontrivial = steps > 8;
    Ok(())
}
