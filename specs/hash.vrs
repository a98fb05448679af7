//@use prelude.vrs
// ---- Cipher suites and hashing. Trusted: a suite has one positive hash size,
// its hash is a function of the bytes written, and two different strings that
// were both hashed in this run (used) have different digests: the collision
// resistance the property assumes, in a form that is consistent.
pub struct Suite { pub id: Ghost<int> }
impl Clone for Suite { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Suite {}
pub struct GoHash { pub id: Ghost<int>, pub acc: Ghost<Seq<u8>> }
impl Clone for GoHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for GoHash {}
//@typemap crypto/suites.CipherSuite Suite Suite{id:Ghost(0)}
//@typemap hash.Hash GoHash
pub mod hashax {
use vstd::prelude::*;
use super::Suite;
verus! {
pub uninterp spec fn hsize(cs: Suite) -> int;
pub uninterp spec fn sha(cs: Suite, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn used(cs: Suite, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_hsize(cs: Suite) ensures 1 <= #[trigger] hsize(cs) <= 0xffff {}
#[verifier::external_body]
pub broadcast proof fn axiom_sha_len(cs: Suite, b: Seq<u8>) ensures (#[trigger] sha(cs, b)).len() == hsize(cs) {}
#[verifier::external_body]
pub proof fn axiom_cr(cs: Suite, a: Seq<u8>, b: Seq<u8>) requires used(cs, a), used(cs, b), sha(cs, a) == sha(cs, b) ensures a == b {}
} }
pub use hashax::*;
broadcast use {hashax::axiom_hsize, hashax::axiom_sha_len};

//@ext crypto/suites.CipherSuite.HashSize
pub fn suite_HashSize(cs: Suite) -> (r: i64) ensures r == hsize(cs)
//@end
//@ext crypto/suites.CipherSuite.Hash
pub fn suite_Hash(cs: Suite) -> (r: GoHash) ensures r.id@ == cs.id@, r.acc@ == Seq::<u8>::empty()
//@end
//@ext hash.Hash.Write
pub fn hash_Write(h: &mut GoHash, b: Slice<u8>) -> (r: (i64, Option<GoErr>)) ensures final(h).id == old(h).id, final(h).acc@ == old(h).acc@ + b@, r.1.is_none()
//@end
//@ext hash.Hash.Sum
pub fn hash_Sum(h: GoHash, b: Slice<u8>) -> (r: Slice<u8>)
    ensures r@ == b@ + sha(Suite { id: h.id }, h.acc@), !r.nil@, used(Suite { id: h.id }, h.acc@)
//@end
