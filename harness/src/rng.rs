//! xorshift64* generator: every random choice of the harness comes from VERIF_SEED through here.
use std::cell::Cell;
pub struct Rng(Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
        let r = Rng(Cell::new(if x == 0 { 0x1234_5678_9ABC_DEF1 } else { x }));
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&self) -> u64 {
        let mut x = self.0.get();
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0.set(x);
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
    pub fn chance(&self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}
