"""shared text of the units"""

NZ = r"""
/// stand-in for core::num::NonZeroU32 (same operations, contracts assumed from its documentation):
/// building one from 0 is undefined behaviour, so new_unchecked has `n != 0` as a precondition.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU32 { pub v: u32 }
impl NonZeroU32 {
    pub const fn new_unchecked(n: u32) -> (r: NonZeroU32) requires n != 0, ensures r.v == n { NonZeroU32 { v: n } }
    pub fn get(self) -> (r: u32) ensures r == self.v { self.v }
    pub fn new(n: u32) -> (r: Option<NonZeroU32>) ensures n == 0 ==> r.is_none(), n != 0 ==> r == Some(NonZeroU32 { v: n }) { if n == 0 { None } else { Some(NonZeroU32 { v: n }) } }
}
"""
NZ_WHY = "core::num::NonZeroU32 is replaced by a plain wrapper with new_unchecked (requires n != 0), new and get"

UNREACH = r"""
/// what the extraction puts in the place of a panic: reaching it must be impossible
#[verifier::external_body]
pub fn verif_unreachable() -> (r: !) requires false { unimplemented!() }
"""

SWAP = r"""
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s).len(), j < old(s).len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
"""
SWAP_WHY = "<[T]>::swap exchanges the two elements (contract of the standard library)"


def flags(u, ty):
    """stand-in for a bitflags type: a record of booleans, one per flag found in the crate.
    The contract of contains/set/insert/remove/toggle is the documented one of the bitflags crate."""
    def gen(crate):
        from rsx import ExtractError
        names = {}
        for (mod, impl, name), t in crate.consts.items():
            if mod == "types::flags" and impl == f"impl {ty}":
                v = [x[1] for x in t if x[0] == "num"]
                if len(v) == 1:
                    names[name] = int(v[0].replace("_", ""), 0)
        if not names:
            raise ExtractError(f"flags of {ty} not found")
        vals = list(names.values())
        if len(set(vals)) != len(vals) or any(v & (v - 1) or v == 0 for v in vals):
            raise ExtractError(f"flags of {ty} are not distinct bits: {names}")
        fs = [n.lower() for n in names]
        out = [f"#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct {ty} {{ " + ", ".join(f"pub {f}: bool" for f in fs) + " }"]
        out.append(f"impl {ty} {{")
        for n in names:
            out.append(f"  pub const {n}: {ty} = {ty} {{ " + ", ".join(f"{f}: {'true' if f == n.lower() else 'false'}" for f in fs) + " };")
        out.append(f"  pub fn empty() -> (r: {ty}) ensures " + ", ".join(f"!r.{f}" for f in fs) + f" {{ {ty} {{ " + ", ".join(f"{f}: false" for f in fs) + " } }")
        out.append("  pub fn contains(&self, o: " + ty + ") -> (r: bool) ensures r == (" + " && ".join(f"(o.{f} ==> self.{f})" for f in fs) + ") { " + " && ".join(f"(!o.{f} || self.{f})" for f in fs) + " }")
        for m, e in (("insert", "{a} || {b}"), ("remove", "{a} && !{b}"), ("toggle", "{a} != {b}")):
            out.append(f"  pub fn {m}(&mut self, o: {ty}) ensures " + ", ".join("final(self).%s == (%s)" % (f, e.format(a=f"old(self).{f}", b=f"o.{f}")) for f in fs)
                       + " { *self = " + ty + " { " + ", ".join("%s: %s" % (f, e.format(a=f"self.{f}", b=f"o.{f}")) for f in fs) + " }; }")
        out.append(f"  pub fn set(&mut self, o: {ty}, b: bool) ensures " + ", ".join(f"final(self).{f} == (if o.{f} {{ b }} else {{ old(self).{f} }})" for f in fs)
                   + " { *self = " + ty + " { " + ", ".join(f"{f}: if o.{f} {{ b }} else {{ self.{f} }}" for f in fs) + " }; }")
        out.append("}")
        return "\n".join(out)
    u.parts.append(("gen", gen))
    u.assumptions.append(f"bitflags type {ty} is a record of independent booleans, one per declared flag (names and distinct bits read from the crate)")
