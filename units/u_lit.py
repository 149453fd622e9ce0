from prelude import NZ, NZ_WHY
from unit import Unit

LIT_SPEC = r"""
/// contract of a literal: ordinal 2v is "not v", 2v+1 is "v"; variables are 1 ..= 0x3fff_ffff
impl Lit {
    pub open spec fn ord(&self) -> u32 { self.ordinal.v }
    pub open spec fn wf(&self) -> bool { 2 <= self.ordinal.v < 0x8000_0000 }
    pub open spec fn var(&self) -> nat { (self.ordinal.v / 2) as nat }
    pub open spec fn sign(&self) -> bool { self.ordinal.v % 2 == 1 }
    pub open spec fn num(&self) -> int { if self.sign() { self.var() as int } else { -(self.var() as int) } }
    pub open spec fn neg(&self) -> Lit { Lit { ordinal: NonZeroU32 { v: if self.sign() { (self.ordinal.v - 1) as u32 } else { (self.ordinal.v + 1) as u32 } } } }
}
impl ClauseId {
    pub open spec fn ord(&self) -> u32 { self.ordinal.v }
    pub open spec fn lifted(&self) -> bool { self.ordinal.v >= 0x8000_0000 }
    pub open spec fn is_plain(&self) -> bool { 1 <= self.ordinal.v < 0x8000_0000 }
}
pub open spec fn lit_of(x: int) -> Lit { Lit { ordinal: NonZeroU32 { v: if x < 0 { (-2 * x) as u32 } else { (2 * x + 1) as u32 } } } }
"""
BITS = r"""
pub broadcast proof fn bits_shr(a: u32) ensures #[trigger] (a >> 1) == a / 2 { assert(a >> 1 == a / 2) by (bit_vector); }
pub broadcast proof fn bits_and1(a: u32) ensures #[trigger] (a & 1) == a % 2 { assert(a & 1 == a % 2) by (bit_vector); }
pub proof fn bits_xor1(a: u32) ensures (a ^ 1) == (if a % 2 == 1 { (a - 1) as u32 } else { (a + 1) as u32 }), a >= 2 ==> (a ^ 1) >= 2, a < 0x8000_0000 ==> (a ^ 1) < 0x8000_0000
{ assert((a ^ 1) == (if a % 2 == 1 { (a - 1) as u32 } else { (a + 1) as u32 })) by (bit_vector); assert(a >= 2 ==> (a ^ 1) >= 2) by (bit_vector); assert(a < 0x8000_0000 ==> (a ^ 1) < 0x8000_0000) by (bit_vector); }
pub proof fn bits_tag(a: u32)
    ensures a < 0x8000_0000 ==> (a | 0x8000_0000) == a + 0x8000_0000,
            (a & 0x7fff_ffff) == (if a >= 0x8000_0000 { (a - 0x8000_0000) as u32 } else { a }),
            (0x8000_0000 & a) == (if a >= 0x8000_0000 { 0x8000_0000u32 } else { 0u32 }),
            (a | 0x8000_0000) >= 0x8000_0000,
{
    assert(a < 0x8000_0000 ==> (a | 0x8000_0000) == a + 0x8000_0000) by (bit_vector);
    assert((a & 0x7fff_ffff) == (if a >= 0x8000_0000 { (a - 0x8000_0000) as u32 } else { a })) by (bit_vector);
    assert((0x8000_0000 & a) == (if a >= 0x8000_0000 { 0x8000_0000u32 } else { 0u32 })) by (bit_vector);
    assert((a | 0x8000_0000) >= 0x8000_0000) by (bit_vector);
}
pub proof fn bits_shl(a: u32) requires a < 0x8000_0000 ensures (a << 1) == 2 * a, 2 * a + 1 <= u32::MAX { assert(a < 0x8000_0000 ==> (a << 1) == 2 * a) by (bit_vector); }
"""
THEOREMS = r"""
// ---- C01 over the contracts above ----
pub proof fn c01_round_trip(x: int) requires x != 0, -0x4000_0000 < x < 0x4000_0000
    ensures lit_of(x).wf(), lit_of(x).num() == x, lit_of(x).var() == (if x < 0 { -x } else { x }), lit_of(x).sign() == (x > 0),
{ }
pub proof fn c01_distinct(x: int, y: int) requires x != 0, y != 0, -0x4000_0000 < x < 0x4000_0000, -0x4000_0000 < y < 0x4000_0000, x != y
    ensures lit_of(x).ord() != lit_of(y).ord()
{ }
pub proof fn c01_consecutive(x: int) requires 0 < x < 0x4000_0000
    ensures lit_of(-x).ord() == 2 * x, lit_of(x).ord() == 2 * x + 1
{ }
pub proof fn c01_negation(l: Lit) requires l.wf()
    ensures l.neg().wf(), l.neg().neg() == l, l.neg().var() == l.var(), l.neg().sign() != l.sign(), l.neg().num() == -l.num(), l.neg() != l
{ }
pub proof fn c01_pack(l: Lit) requires l.wf()
    ensures (l.ord() | 0x8000_0000) == l.ord() + 0x8000_0000
{ bits_tag(l.ord()); }
pub proof fn c01_word(l: Lit, c: ClauseId) requires l.wf(), c.is_plain()
    ensures ({ let w = ClauseId { ordinal: NonZeroU32 { v: (l.ord() + 0x8000_0000) as u32 } }; w.lifted() && w.ord() - 0x8000_0000 == l.ord() && w != c }), !c.lifted()
{ }
"""


def types(u):
    u.assume(NZ, NZ_WHY)
    u.text("pub type VarId = usize;")
    u.struct("types::lit", "Lit", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.struct("types::idx", "ClauseId", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.text(LIT_SPEC)


def from_spec(src, dst, expr):
    """the contract of `impl From<src> for dst`, in the form Verus' std library expects it"""
    return (f"impl vstd::std_specs::convert::FromSpecImpl<{src}> for {dst} {{ open spec fn obeys_from_spec() -> bool {{ true }} "
            f"open spec fn from_spec(l: {src}) -> {dst} {{ {expr} }} }}")


NOT_SPEC = """
impl vstd::std_specs::ops::NotSpecImpl for Lit {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { self.ord() >= 2 }
    open spec fn not_spec(self) -> Lit { self.neg() }
}
"""
# call sites of the conversions that have a precondition are renamed to the contracted function
LIT_SUBST = [("Lit :: from ( * $i )", "Lit :: from_i32 ( * $i )")]


def fns(u, full=True):
    L = "types::lit"
    f = u.fn
    f(L, r"impl From < \( VarId , bool \) > for Lit", "from", into="Lit", rename="from_vb", sig="fn from_vb(vb: (VarId, bool)) -> (r: Lit)",
      spec="requires 1 <= vb.0 < 0x4000_0000, ensures r.wf(), r.var() == vb.0, r.sign() == vb.1, r.ord() == 2 * vb.0 + (if vb.1 { 1int } else { 0int })", pre="let (vi, b) = vb; proof { bits_shl(vi as u32); }")
    f(L, "impl From < usize > for Lit", "from", into="Lit", rename="from_usize", spec="requires 1 <= l <= u32::MAX, ensures r.ord() == l")
    f(L, "impl From < i32 > for Lit", "from", into="Lit", rename="from_i32",
      spec="requires x != 0, -0x4000_0000 < x < 0x4000_0000, ensures r == lit_of(x as int), r.wf(), r.num() == x",
      pre="proof { assert(forall|a: int| #[trigger] ((-2) * a) == -(2 * a)) by (nonlinear_arith); }")
    f(L, "impl From < ClauseId > for Lit", "from", into="Lit", rename="from_cid",
      spec="requires cid.ord() != 0x8000_0000, cid.ord() != 0, ensures r.ord() == (if cid.lifted() { (cid.ord() - 0x8000_0000) as u32 } else { cid.ord() })",
      pre="proof { bits_tag(cid.ordinal.v); }")
    u.text(from_spec("Lit", "bool", "l.sign()"))
    f(L, "impl From < Lit > for bool", "from", into="From<Lit> for bool", pre="broadcast use bits_and1;")
    u.text(from_spec("Lit", "usize", "l.ord() as usize"))
    f(L, "impl From < Lit > for usize", "from", into="From<Lit> for usize")
    mul = [(". is_multiple_of ( 2 )", "% 2 == 0", "definition of u32::is_multiple_of")]
    u.text(from_spec("Lit", "i32", "l.num() as i32"))
    f(L, "impl From < Lit > for i32", "from", into="From<Lit> for i32", drop=mul, pre="broadcast use bits_shr;")
    u.text(from_spec("&Lit", "i32", "l.num() as i32"))
    f(L, "impl From < & Lit > for i32", "from", into="From<&Lit> for i32", drop=mul, pre="broadcast use bits_shr;")
    u.text(from_spec("Lit", "ClauseId", "ClauseId { ordinal: NonZeroU32 { v: l.ord() | 0x8000_0000u32 } }"))
    f(L, "impl From < Lit > for ClauseId", "from", into="From<Lit> for ClauseId", pre="proof { bits_tag(l.ordinal.v); }")
    u.text(NOT_SPEC)
    f(L, "impl Not for Lit", "not", into="std::ops::Not for Lit", impl_pre="type Output = Lit;\n", pre="proof { bits_xor1(self.ordinal.v); }")
    f(L, "impl LitIF for Lit", "as_bool", into="Lit", spec="ensures r == self.sign()", pre="broadcast use bits_and1;")
    f(L, "impl LitIF for Lit", "vi", into="Lit", spec="ensures r == self.var()", pre="broadcast use bits_shr;")
    I = "types::idx"
    f(I, "impl Default for ClauseId", "default", into="ClauseId", sig="fn default() -> (r: ClauseId)", spec="ensures r.is_plain(), !r.lifted()")
    f(I, "impl From < usize > for ClauseId", "from", into="ClauseId", rename="from_usize", spec="requires 1 <= u <= u32::MAX, ensures r.ord() == u")
    u.text(from_spec("ClauseId", "usize", "l.ord() as usize"))
    f(I, "impl From < ClauseId > for usize", "from", into="From<ClauseId> for usize")
    f(I, "impl ClauseIdIF for ClauseId", "is_lifted_lit", into="ClauseId", spec="ensures r == self.lifted()", pre="proof { bits_tag(self.ordinal.v); }")
    if full:
        f(L, "impl From < u32 > for Lit", "from", into="Lit", rename="from_u32", spec="requires 1 <= l, ensures r.ord() == l")


def base(u, full=False):
    """literals and clause references, with their (verified) conversion functions"""
    types(u)
    u.text(BITS)
    fns(u, full)


def unit():
    u = Unit("lit")
    base(u, True)
    u.text(THEOREMS)
    return u
