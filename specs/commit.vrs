//@use hash.vrs
// ---- C20: commitments. HMAC under a fixed key is one more keyed hash.
pub uninterp spec fn hmac_id(cs: Suite, key: Seq<u8>) -> int;
pub uninterp spec fn fixed_bytes(cs: Suite) -> Seq<u8>;
pub uninterp spec fn opening_size(cs: Suite) -> int;
//@ext crypto/hmac.New#Hash
pub fn hmac_New(cs: Suite, key: Slice<u8>) -> (r: GoHash) ensures r.id@ == hmac_id(cs, key@), r.acc@ == Seq::<u8>::empty()
//@end
//@ext crypto/hmac.Equal
pub fn hmac_Equal(a: Slice<u8>, b: Slice<u8>) -> (r: bool) ensures r == (a@ == b@)
//@end
//@ext crypto/suites.CipherSuite.CommitmentFixedBytes
pub fn suite_Fixed(cs: Suite) -> (r: Slice<u8>) ensures r@ == fixed_bytes(cs)
//@end
//@ext crypto/suites.CipherSuite.CommitmentOpeningSize
pub fn suite_OpeningSize(cs: Suite) -> (r: i64) ensures r == opening_size(cs), 0 <= r <= 0xffff
//@end
//@ext crypto/rand.Read
pub fn rand_Read(b: &mut Slice<u8>) -> (r: (i64, Option<GoErr>)) ensures final(b)@.len() == old(b)@.len(), final(b).nil == old(b).nil
//@end
pub open spec fn mac_suite(cs: Suite) -> Suite { Suite { id: Ghost(hmac_id(cs, fixed_bytes(cs))) } }
pub open spec fn commitment(cs: Suite, opening: Seq<u8>, body: Seq<u8>) -> Seq<u8> { sha(mac_suite(cs), opening + body) }
//@go crypto/commitments.GenerateOpening
pub fn cm_GenerateOpening(cs: Suite) -> (r: Slice<u8>) ensures r@.len() == opening_size(cs)
//@end
//@go crypto/commitments.Commit
pub fn cm_Commit(cs: Suite, opening: Slice<u8>, body: Slice<u8>) -> (r: Slice<u8>)
    ensures r@ == commitment(cs, opening@, body@), used(mac_suite(cs), opening@ + body@), r@.len() == hsize(mac_suite(cs))
//@hint after call hash_Sum 1
    proof { assert(mac.acc@ =~= opening@ + body@); assert(RES@ =~= commitment(cs, opening@, body@)); }
//@end
//@go crypto/commitments.Verify
pub fn cm_Verify(cs: Suite, opening: Slice<u8>, body: Slice<u8>, commitment_: Slice<u8>) -> (r: bool)
    ensures r == (commitment_@ == commitment(cs, opening@, body@)), used(mac_suite(cs), opening@ + body@)
//@end
// C20: a commitment verifies for what it was made for, and for nothing else
pub fn prop_commit_complete(cs: Suite, opening: Slice<u8>, body: Slice<u8>) -> (r: bool) ensures r
{ let c = cm_Commit(cs, opening, body); cm_Verify(cs, opening, body, c) }
pub proof fn prop_commit_binding(cs: Suite, o1: Seq<u8>, b1: Seq<u8>, o2: Seq<u8>, b2: Seq<u8>)
    requires o1.len() == o2.len(), used(mac_suite(cs), o1 + b1), used(mac_suite(cs), o2 + b2), commitment(cs, o1, b1) == commitment(cs, o2, b2)
    ensures o1 == o2, b1 == b2
{
    axiom_cr(mac_suite(cs), o1 + b1, o2 + b2);
    let a = o1 + b1; let b = o2 + b2;
    assert(a.subrange(0, o1.len() as int) =~= o1); assert(b.subrange(0, o1.len() as int) =~= o2);
    assert(a.subrange(o1.len() as int, a.len() as int) =~= b1); assert(b.subrange(o1.len() as int, b.len() as int) =~= b2);
}
