//@use hash.vrs
// ---- Keys and configuration. Trusted: a signature made by a private key
// verifies under its public key; signing is recorded in a ghost trace.
pub struct PubKey { pub nil: Ghost<bool>, pub id: Ghost<int> }
impl Clone for PubKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PubKey {}
impl PubKey {
    #[verifier::external_body]
    pub fn is_nil(&self) -> (r: bool) ensures r == self.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn nil() -> (r: Self) ensures r.nil@ { unimplemented!() }
}
pub struct VrfPub { pub id: Ghost<int> }
impl Clone for VrfPub { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for VrfPub {}
impl VrfPub { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct SignKey { pub id: Ghost<int>, pub trace: Ghost<Seq<Seq<u8>>> }
impl Clone for SignKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for SignKey {}
impl SignKey { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct Ctx {}
impl Clone for Ctx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Ctx {}
//@typemap crypto/suites.SigningPublicKey PubKey PubKey::nil()
//@typemap crypto/suites.SigningPrivateKey SignKey SignKey::any()
//@typemap crypto/vrf.PublicKey VrfPub VrfPub::any()
//@typemap context.Context Ctx
//@nonnil tree/transparency/structs.PublicConfig tree/transparency/structs.Config
pub uninterp spec fn key_pub(id: int) -> PubKey;
pub uninterp spec fn key_bytes(k: PubKey) -> Seq<u8>;
pub uninterp spec fn sig_ok(k: PubKey, msg: Seq<u8>, sig: Seq<u8>) -> bool;
//@ext crypto/suites.SigningPrivateKey.Sign
pub fn sk_Sign(k: &mut SignKey, msg: Slice<u8>) -> (r: (Slice<u8>, Option<GoErr>))
    ensures final(k).id == old(k).id, final(k).trace@ == old(k).trace@.push(msg@), r.1.is_none() ==> sig_ok(key_pub(old(k).id@), msg@, r.0@)
//@end
//@ext crypto/suites.SigningPrivateKey.Public
pub fn sk_Public(k: SignKey) -> (r: PubKey) ensures r == key_pub(k.id@), !r.nil@
//@end
//@ext crypto/suites.SigningPublicKey.Bytes
pub fn pk_Bytes(k: PubKey) -> (r: Slice<u8>) requires !k.nil@ ensures r@ == key_bytes(k)
//@end
//@ext crypto/suites.SigningPublicKey.Verify
pub fn pk_Verify(k: PubKey, msg: Slice<u8>, sig: Slice<u8>) -> (r: bool) requires !k.nil@ ensures r == sig_ok(k, msg@, sig@)
//@end
