//@use prelude.vrs
// The closed interface prefix.PrefixSearchResult (nil is the last variant).
//@sum tree/prefix.PrefixSearchResult PSR tree/prefix.inclusionProof tree/prefix.nonInclusionLeafProof tree/prefix.nonInclusionParentProof
pub enum PSR { Incl(px_inclusionProof), Leaf(px_nonInclusionLeafProof), Parent(px_nonInclusionParentProof), Nil }
impl Clone for PSR { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PSR {}
pub fn zero_PSR() -> (r: PSR) ensures r == PSR::Nil { PSR::Nil }
pub fn of_px_inclusionProof(v: px_inclusionProof) -> (r: PSR) ensures r == PSR::Incl(v) { PSR::Incl(v) }
pub fn of_px_nonInclusionLeafProof(v: px_nonInclusionLeafProof) -> (r: PSR) ensures r == PSR::Leaf(v) { PSR::Leaf(v) }
pub fn of_px_nonInclusionParentProof(v: px_nonInclusionParentProof) -> (r: PSR) ensures r == PSR::Parent(v) { PSR::Parent(v) }
pub fn is_px_inclusionProof(r: PSR) -> (b: bool) ensures b == (r is Incl) { match r { PSR::Incl(_) => true, _ => false } }
pub fn is_px_nonInclusionLeafProof(r: PSR) -> (b: bool) ensures b == (r is Leaf) { match r { PSR::Leaf(_) => true, _ => false } }
pub fn is_px_nonInclusionParentProof(r: PSR) -> (b: bool) ensures b == (r is Parent) { match r { PSR::Parent(_) => true, _ => false } }
pub fn as_px_inclusionProof(r: PSR) -> (v: px_inclusionProof) requires r is Incl ensures r == PSR::Incl(v) { match r { PSR::Incl(v) => v, _ => unreached() } }
pub fn as_px_nonInclusionLeafProof(r: PSR) -> (v: px_nonInclusionLeafProof) requires r is Leaf ensures r == PSR::Leaf(v) { match r { PSR::Leaf(v) => v, _ => unreached() } }
pub fn as_px_nonInclusionParentProof(r: PSR) -> (v: px_nonInclusionParentProof) requires r is Parent ensures r == PSR::Parent(v) { match r { PSR::Parent(v) => v, _ => unreached() } }
pub open spec fn psr_incl(r: PSR) -> bool { r is Incl }
pub open spec fn psr_depth(r: PSR) -> int { match r { PSR::Incl(v) => v.depth as int, PSR::Leaf(v) => v.depth as int, PSR::Parent(v) => v.depth as int, PSR::Nil => 0 } }
// no result is the nil interface
pub open spec fn psr_nn(s: Seq<PSR>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Nil) }
