from prelude import NZ, NZ_WHY
from unit import Unit

# Luby sequence, by the textbook recursion on the position n >= 1:
#   n = 2^k - 1             ->  2^(k-1)
#   2^(k-1) <= n < 2^k - 1  ->  luby(n - 2^(k-1) + 1)
PRE = r"""
pub open spec fn p2(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * p2((k - 1) as nat) } }
/// smallest k with n <= 2^k - 1
pub open spec fn blk(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + blk(n / 2) } }
/// the n-th term (n >= 1) of the Luby sequence
pub open spec fn luby(n: nat) -> nat
    decreases n
{
    if n == 0 { 0 }
    else if n + 1 == p2(blk(n)) { p2((blk(n) - 1) as nat) }
    else if 2 <= p2((blk(n) - 1) as nat) <= n { luby((n - p2((blk(n) - 1) as nat) + 1) as nat) }
    else { 0 }
}
pub proof fn lemma_p2_pos(k: nat) ensures p2(k) >= 1 decreases k { if k > 0 { lemma_p2_pos((k - 1) as nat); } }
pub proof fn lemma_p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b
{ if a < b { lemma_p2_mono(a, (b - 1) as nat); lemma_p2_pos((b-1) as nat); } }
pub proof fn lemma_blk(n: nat) requires n >= 1
    ensures blk(n) >= 1, p2((blk(n) - 1) as nat) <= n, n < p2(blk(n))
    decreases n
{
    reveal_with_fuel(blk, 3); reveal_with_fuel(p2, 3);
    if n > 1 { lemma_blk(n / 2); }
}
pub proof fn lemma_blk_unique(n: nat, k: nat) requires k >= 1, p2((k - 1) as nat) <= n, n < p2(k) ensures blk(n) == k
{
    lemma_p2_pos((k - 1) as nat);
    lemma_blk(n);
    if blk(n) < k { lemma_p2_mono(blk(n), (k - 1) as nat); }
    if blk(n) > k { lemma_p2_mono(k, (blk(n) - 1) as nat); }
}
pub proof fn lemma_64(k: nat) requires p2(k) <= 0x8000_0000_0000_0000 ensures k <= 63
{
    if k > 63 { lemma_p2_mono(64, k); assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute_only); }
}
/// last term of a block
pub proof fn lemma_top(n: nat, k: nat) requires n + 1 == p2(k + 1) ensures luby(n) == p2(k)
{ lemma_p2_pos(k); lemma_blk_unique(n, k + 1); }
/// inner terms of a block repeat the previous block
pub proof fn lemma_step(i: nat, s: nat, k: nat)
    requires k >= 1, s + 1 == p2(k), i < 2 * s
    ensures s >= 1, luby((i % s + 1) as nat) == luby(i + 1), i % s < s
{
    lemma_p2_pos((k - 1) as nat);
    assert(s >= 1);
    if i < s { assert(i % s == i) by (nonlinear_arith) requires i < s, s >= 1; }
    else {
        assert(i % s == i - s) by (nonlinear_arith) requires s <= i < 2 * s;
        let n = i + 1;
        assert(p2(k + 1) == 2 * p2(k));
        lemma_blk_unique(n, k + 1);
    }
}
impl LubySeries {
    pub open spec fn inv(&self) -> bool {
        &&& 0 <= self.seq < 64
        &&& self.size + 1 == p2((self.seq + 1) as nat)
        &&& self.size <= self.index + 1
        &&& self.max_value >= 1
    }
    /// the term last drawn
    pub open spec fn term(&self) -> nat { luby((self.index + 1) as nat) }
}
/// the beginning of the sequence, as documented
pub proof fn luby_beginning()
    ensures luby(1) == 1, luby(2) == 1, luby(3) == 2, luby(4) == 1, luby(5) == 1, luby(6) == 2, luby(7) == 4, luby(8) == 1,
        luby(9) == 1, luby(10) == 2, luby(15) == 8
{ assert(luby(1) == 1 && luby(2) == 1 && luby(3) == 2 && luby(4) == 1 && luby(5) == 1 && luby(6) == 2 && luby(7) == 4 && luby(8) == 1
    && luby(9) == 1 && luby(10) == 2 && luby(15) == 8) by (compute); }
"""

SPEC = """    requires old(self).inv(), old(self).index < %s,
    ensures final(self).inv(), final(self).index == old(self).index + 1,
        %s,
        final(self).max_value as nat == (if old(self).max_value as nat >= final(self).term() { old(self).max_value as nat } else { final(self).term() }),
"""
L0 = """invariant self.index == old(self).index + 1, self.index < 0x4000_0000_0000_0000,
    self.max_value == old(self).max_value,
    0 <= self.seq < 64, self.size + 1 == p2((self.seq + 1) as nat), self.size <= self.index,
    0 <= seq < 64, size + 1 == p2((seq + 1) as nat), seq >= self.seq, size == self.size || size <= 2 * self.index + 1,
    size <= 2 * self.index + 1, self.max_value >= 1,
  decreases 2 * self.index + 2 - size"""
L1 = """invariant self.index == old(self).index + 1, self.index < 0x4000_0000_0000_0000, self.max_value == old(self).max_value, self.max_value >= 1,
    0 <= self.seq < 64, self.size + 1 == p2((self.seq + 1) as nat), self.size <= self.index,
    0 <= seq < 64, size + 1 == p2((seq + 1) as nat), index < size, size <= 2 * self.index + 1, luby((index + 1) as nat) == luby((self.index + 1) as nat),
  decreases size"""
POW = r"""
#[verifier::external_body]
pub fn verif_pow(b: usize, e: u32) -> (r: usize) requires b == 2, p2(e as nat) <= usize::MAX ensures r == p2(e as nat) { b.pow(e) }
"""


def unit():
    u = Unit("luby")
    u.assume(NZ, NZ_WHY)
    u.text(PRE)
    u.assume(POW, "usize::pow(2, e) is 2^e when that fits (contract of the standard library)")
    u.struct("types::luby", "LubySeries")
    common = dict(
        into="LubySeries", nloops=2,
        subst=[("2usize.pow($x seq as u32)", "2usize.pow($x seq as u32)"), ("2usize . pow ( $$a )", "verif_pow ( 2usize , $$a )")],
        loops={
            0: {"inv": L0, "top": "proof { lemma_64((seq + 1) as nat); assert(p2((seq + 2) as nat) == 2 * p2((seq + 1) as nat)); lemma_64((seq + 2) as nat); }"},
            1: {"inv": L1, "top": "let ghost i0 = index; let ghost k0 = seq; proof { if seq == 0 { assert(p2(1) == 2) by (compute); } assert(p2((seq + 1) as nat) == 2 * p2(seq as nat)); assert((size - 1) as usize >> 1 == (size - 1) / 2) by (bit_vector) requires size >= 1; lemma_step(index as nat, ((size - 1) / 2) as nat, seq as nat); }",
                "after": "proof { lemma_top((index + 1) as nat, seq as nat); lemma_p2_pos(seq as nat); }"},
        },
    )
    u.fn("types::luby", "impl LubySeries", "next_unchecked", spec=SPEC % ("0x3fff_ffff_ffff_fff0", "r as nat == final(self).term()"), **common)
    u.fn("types::luby", "impl Iterator for LubySeries", "next",
         spec=SPEC % ("0x7fff_0000", "r.is_some() && r.unwrap().v as nat == final(self).term()"),
         **dict(common, subst=common["subst"] + [("-> Option < NonZeroU32 >", "-> Option<NonZeroU32>")]))
    u.fn("types::luby", "impl LubySeries", "max_value", into="LubySeries", spec="ensures r == self.max_value")
    u.fn("types::luby", "impl LubySeries", "reset", into="LubySeries",
         spec="requires old(self).inv(), ensures final(self).inv(), final(self).index == 0, final(self).max_value == old(self).max_value",
         pre="proof { assert(p2(1) == 2) by (compute); }")
    u.fn("types::luby", "impl Default for LubySeries", "default", into="LubySeries", sig="fn default() -> (r: LubySeries)",
         spec="ensures r.inv(), r.index == 0, r.max_value == 1",
         pre="proof { assert(p2(1) == 2) by (compute); }")
    return u
