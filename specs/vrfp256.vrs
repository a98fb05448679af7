//@use buf.vrs hash.vrs
// ---- C20: ECVRF-P256. Trusted: the group laws of the curve, its encodings,
// math/big, and SHA-256.
pub struct Pt { pub p: Ghost<int> }
impl Clone for Pt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Pt {}
impl Pt { #[verifier::external_body] pub fn zero() -> (r: Self) { unimplemented!() } }
pub struct BigInt { pub v: Ghost<int> }
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for BigInt {}
impl BigInt { #[verifier::external_body] pub fn zero() -> (r: Self) ensures r.v@ == 0 { unimplemented!() } }
pub struct Curve {}
impl Clone for Curve { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Curve {}
//@typemap filippo.io/nistec.P256Point Pt Pt::zero()
//@typemap math/big.Int BigInt BigInt::zero()
//@typemap crypto/elliptic.Curve Curve Curve{}
//@nonnil filippo.io/nistec.P256Point math/big.Int crypto/elliptic.CurveParams crypto/vrf/p256.PrivateKey crypto/vrf/p256.PublicKey
pub mod p2ax {
use vstd::prelude::*;
use super::Suite;
verus! {
pub uninterp spec fn gadd(a: int, b: int) -> int;
pub uninterp spec fn gneg(a: int) -> int;
pub uninterp spec fn ginf() -> int;
pub uninterp spec fn smul(s: int, p: int) -> int;
pub uninterp spec fn gbase() -> int;
pub uninterp spec fn ord() -> int;
pub uninterp spec fn ptenc(p: int) -> Seq<u8>;
pub uninterp spec fn ptdec(b: Seq<u8>) -> Option<int>;
pub uninterp spec fn be(b: Seq<u8>) -> int;
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn ax_pt(p: int) ensures (#[trigger] ptenc(p)).len() == (if p == ginf() { 1int } else { 33 }), ptdec(ptenc(p)) == Some(p) {}
#[verifier::external_body]
pub broadcast proof fn ax_dec(b: Seq<u8>) requires b.len() == 33 ensures (#[trigger] ptdec(b)).is_some() ==> ptdec(b).unwrap() != ginf() {}
#[verifier::external_body]
pub broadcast proof fn ax_sha(b: Seq<u8>) ensures (#[trigger] sha256(b)).len() == 32 {}
#[verifier::external_body]
pub broadcast proof fn ax_be(b: Seq<u8>) ensures 0 <= #[trigger] be(b) {}
// a 16-byte number fits below 2^128, which is below the order
#[verifier::external_body]
pub broadcast proof fn ax_be16(b: Seq<u8>) requires b.len() == 16 ensures 0 <= #[trigger] be(b) < ord() {}
#[verifier::external_body]
pub proof fn ax_pad(b: Seq<u8>) requires b.len() == 16 ensures be(Seq::new(16, |i: int| 0u8) + b) == be(b) {}
#[verifier::external_body]
pub broadcast proof fn ax_ord() ensures #[trigger] ord() > 1 {}
// the group has prime order
#[verifier::external_body]
pub broadcast proof fn ax_prime(s: int, p: int) requires 1 <= s < ord(), p != ginf() ensures #[trigger] smul(s, p) != ginf() {}
#[verifier::external_body]
pub broadcast proof fn ax_base() ensures #[trigger] gbase() != ginf() {}
#[verifier::external_body]
pub proof fn ax_muladd(c: int, x: int, k: int, q: int) ensures smul((c * x + k) % ord(), q) == gadd(smul(c, smul(x, q)), smul(k, q)) {}
#[verifier::external_body]
pub proof fn ax_cancel(a: int, b: int) ensures gadd(gadd(a, b), gneg(a)) == b {}
} }
pub use p2ax::*;
broadcast use {p2ax::ax_pt, p2ax::ax_dec, p2ax::ax_sha, p2ax::ax_be, p2ax::ax_be16, p2ax::ax_ord, p2ax::ax_prime, p2ax::ax_base};
//@ext crypto/sha256.Sum256
pub fn go_sha256(b: Slice<u8>) -> (r: Slice<u8>) ensures r@ == sha256(b@)
//@end
//@ext crypto/hmac.New#New
pub fn hmac_New256(key: Slice<u8>) -> (r: GoHash) ensures r.acc@ == Seq::<u8>::empty(), hsize(Suite { id: r.id }) == 32
//@end
//@ext filippo.io/nistec.P256Point.SetBytes
//@attr retrecv
pub fn pt_SetBytes(p: &mut Pt, b: Slice<u8>) -> (r: (Pt, Option<GoErr>))
    ensures r.1.is_none() <==> ptdec(b@).is_some(), r.1.is_none() ==> r.0.p@ == ptdec(b@).unwrap() && *final(p) == r.0
//@end
//@ext filippo.io/nistec.P256Point.BytesCompressed
pub fn pt_Bytes(p: Pt) -> (r: Slice<u8>) ensures r@ == ptenc(p.p@)
//@end
//@ext filippo.io/nistec.P256Point.ScalarMult
//@attr retrecv
pub fn pt_Mul(p: &mut Pt, q: Pt, x: Slice<u8>) -> (r: (Pt, Option<GoErr>)) ensures r.1.is_none() <==> x@.len() == 32, r.1.is_none() ==> r.0.p@ == smul(be(x@) % ord(), q.p@) && *final(p) == r.0
//@end
//@ext filippo.io/nistec.P256Point.ScalarBaseMult
//@attr retrecv
pub fn pt_BaseMul(p: &mut Pt, x: Slice<u8>) -> (r: (Pt, Option<GoErr>)) ensures r.1.is_none() <==> x@.len() == 32, r.1.is_none() ==> r.0.p@ == smul(be(x@) % ord(), gbase()) && *final(p) == r.0
//@end
//@ext filippo.io/nistec.P256Point.Add
//@attr retrecv
pub fn pt_Add(p: &mut Pt, a: Pt, b: Pt) -> (r: Pt) ensures r.p@ == gadd(a.p@, b.p@), *final(p) == r
//@end
//@ext filippo.io/nistec.P256Point.Negate
//@attr retrecv
pub fn pt_Neg(p: &mut Pt, a: Pt) -> (r: Pt) ensures r.p@ == gneg(a.p@), *final(p) == r
//@end
//@ext crypto/elliptic.P256
pub fn el_P256() -> (r: Curve)
//@end
//@ext crypto/elliptic.Curve.Params
pub fn el_Params(c: Curve) -> (r: elliptic_CurveParams) ensures r.N.v@ == ord()
//@end
//@ext math/big.Int.SetBytes
//@attr retrecv
pub fn big_SetBytes(z: &mut BigInt, b: Slice<u8>) -> (r: BigInt) ensures r.v@ == be(b@), *final(z) == r
//@end
//@ext math/big.Int.Sign
pub fn big_Sign(z: BigInt) -> (r: i64) ensures r == (if z.v@ > 0 { 1int } else if z.v@ == 0 { 0 } else { -1 })
//@end
//@ext math/big.Int.Cmp
pub fn big_Cmp(z: BigInt, y: BigInt) -> (r: i64) ensures r == (if z.v@ > y.v@ { 1int } else if z.v@ == y.v@ { 0 } else { -1 })
//@end
//@ext math/big.Int.Mul
//@attr retrecv
pub fn big_Mul(z: &mut BigInt, x: BigInt, y: BigInt) -> (r: BigInt) ensures r.v@ == x.v@ * y.v@, *final(z) == r
//@end
//@ext math/big.Int.Add
//@attr retrecv
pub fn big_Add(z: &mut BigInt, x: BigInt, y: BigInt) -> (r: BigInt) ensures r.v@ == x.v@ + y.v@, *final(z) == r
//@end
//@ext math/big.Int.Mod
//@attr retrecv
pub fn big_Mod(z: &mut BigInt, x: BigInt, y: BigInt) -> (r: BigInt) requires y.v@ > 0 ensures r.v@ == x.v@ % y.v@, *final(z) == r
//@end
//@ext math/big.Int.FillBytes
pub fn big_Fill(z: BigInt, b: &mut Slice<u8>) -> (r: Slice<u8>) requires old(b)@.len() == 32, 0 <= z.v@ < ord() ensures *final(b) == r, r@.len() == 32, be(r@) == z.v@
//@end
//@ext crypto/rand.Read
pub fn rand_Read(b: &mut Slice<u8>) -> (r: (i64, Option<GoErr>)) ensures final(b)@.len() == old(b)@.len(), final(b).nil == old(b).nil
//@end

pub open spec fn h2c_str(salt: Seq<u8>, m: Seq<u8>, c: int) -> Seq<u8> { seq![1u8, 1u8] + salt + m + seq![c as u8, 0u8] }
pub open spec fn h2c(salt: Seq<u8>, m: Seq<u8>, c: int) -> Option<int> decreases 256 - c {
    if c < 0 || c > 255 { None }
    else { match ptdec(seq![2u8] + sha256(h2c_str(salt, m, c))) { Some(p) => Some(p), None => h2c(salt, m, c + 1) } }
}
pub open spec fn chal(p1: int, p2: int, p3: int, p4: int, p5: int) -> Seq<u8> {
    sha256(seq![1u8, 2u8] + ptenc(p1) + ptenc(p2) + ptenc(p3) + ptenc(p4) + ptenc(p5) + seq![0u8]).subrange(0, 16)
}
pub open spec fn p2h(g: Seq<u8>) -> Seq<u8> { sha256(seq![1u8, 3u8] + g + seq![0u8]) }
pub open spec fn vrf_ok(y: int, m: Seq<u8>, pi: Seq<u8>) -> bool {
    &&& pi.len() == 81
    &&& ptdec(pi.subrange(0, 33)).is_some() && 1 <= be(pi.subrange(49, 81)) < ord()
    &&& h2c(ptenc(y), m, 0).is_some()
    &&& ({ let g = ptdec(pi.subrange(0, 33)).unwrap(); let c = be(pi.subrange(33, 49)); let s = be(pi.subrange(49, 81)); let h = h2c(ptenc(y), m, 0).unwrap();
        pi.subrange(33, 49) == chal(y, h, g, gadd(smul(s, gbase()), gneg(smul(c, y))), gadd(smul(s, h), gneg(smul(c, g)))) })
}
// pi is a proof for secret x: made with some nonce k
pub open spec fn vrf_made(x: int, y: int, h: int, k: int, pi: Seq<u8>) -> bool {
    let cb = chal(y, h, smul(x, h), smul(k, gbase()), smul(k, h));
    &&& pi.len() == 81 && 1 <= k < ord()
    &&& pi.subrange(0, 33) == ptenc(smul(x, h)) && pi.subrange(33, 49) == cb && be(pi.subrange(49, 81)) == (be(cb) * x + k) % ord()
}
pub open spec fn sk_ok(k: vp_PrivateKey) -> bool { k.scalar@.len() == 32 && 1 <= be(k.scalar@) < ord() && k.point.p@ == smul(be(k.scalar@), gbase()) }

//@go crypto/vrf/p256.encodeToCurve
//@attr maypanic
pub fn vp_encodeToCurve(salt: Slice<u8>, m: Slice<u8>) -> (r: Pt) ensures h2c(salt@, m@, 0) == Some(r.p@), r.p@ != ginf()
//@loop 1
    invariant 0 <= counter <= 255, h2c(salt@, m@, 0) == h2c(salt@, m@, counter as int),
    decreases 256 - counter
//@hint after call go_sha256 1
    proof { assert(buf@ =~= h2c_str(salt@, m@, counter as int)); }
//@hint before call pt_SetBytes 1
    proof { assert(hashStr@ =~= seq![2u8] + sha256(h2c_str(salt@, m@, counter as int))); }
//@end
//@go crypto/vrf/p256.mac
pub fn vp_mac(key: Slice<u8>, message: Slice<u8>) -> (r: Slice<u8>) ensures r@.len() == 32
//@end
//@go crypto/vrf/p256.generateNonce
//@attr maypanic
pub fn vp_generateNonce(priv_: Slice<u8>, hStr: Slice<u8>) -> (r: Slice<u8>) ensures r@.len() == 32, 1 <= be(r@) < ord()
//@loop 1
    invariant V@.len() == 32
//@end
//@go crypto/vrf/p256.generateChallenge
pub fn vp_generateChallenge(p1: Pt, p2: Pt, p3: Pt, p4: Pt, p5: Pt) -> (r: Slice<u8>) ensures r@ == chal(p1.p@, p2.p@, p3.p@, p4.p@, p5.p@), r@.len() == 16
//@hint after call go_sha256 1
    proof { assert(buf@ =~= seq![1u8, 2u8] + ptenc(p1.p@) + ptenc(p2.p@) + ptenc(p3.p@) + ptenc(p4.p@) + ptenc(p5.p@) + seq![0u8]); }
//@end
//@go crypto/vrf/p256.proofToHash
pub fn vp_proofToHash(gamma: Slice<u8>) -> (r: Slice<u8>) ensures r@ == p2h(gamma@)
//@hint after call go_sha256 1
    proof { assert(buf@ =~= seq![1u8, 3u8] + gamma@ + seq![0u8]); assert(RES@.subrange(0, RES@.len() as int) =~= RES@); }
//@end
//@go crypto/vrf/p256.NewPrivateKey
pub fn vp_NewPrivateKey(raw: Slice<u8>) -> (r: (vp_PrivateKey, Option<GoErr>)) ensures r.1.is_none() <==> raw@.len() == 32 && 1 <= be(raw@) < ord(), r.1.is_none() ==> sk_ok(r.0) && be(r.0.scalar@) == be(raw@)
//@hint before call pt_BaseMul 1
    proof { assert(scalar@ =~= raw@); vstd::arithmetic::div_mod::lemma_small_mod(be(raw@) as nat, ord() as nat); }
//@end
//@go crypto/vrf/p256.PrivateKey.Prove
pub fn vp_Prove(p: vp_PrivateKey, m: Slice<u8>) -> (r: (Slice<u8>, Slice<u8>))
    requires sk_ok(p)
    ensures h2c(ptenc(p.point.p@), m@, 0).is_some(), ({ let h = h2c(ptenc(p.point.p@), m@, 0).unwrap();
        h != ginf() && (exists|k: int| vrf_made(be(p.scalar@), p.point.p@, h, k, r.1@)) && r.0@ == p2h(ptenc(smul(be(p.scalar@), h))) })
//@hint entry
    let ghost mut kg = 0int;
    proof { vstd::arithmetic::div_mod::lemma_small_mod(be(p.scalar@) as nat, ord() as nat); }
//@hint after call vp_generateNonce 1
    proof { kg = be(RES@); vstd::arithmetic::div_mod::lemma_small_mod(be(RES@) as nat, ord() as nat); }
//@hint before call big_Fill 1
    proof { assert(0 <= sInt.v@ < ord()) by { vstd::arithmetic::div_mod::lemma_mod_bound(cInt.v@ * xInt.v@ + kInt.v@, ord()); }; }
//@hint after call big_Fill 1
    proof { assert(proof_@.subrange(49, 81) =~= RES@); assert(RES@.len() == 32 && be(RES@) == sInt.v@); }
//@hint return
    proof { let h = h2c(ptenc(p.point.p@), m@, 0).unwrap(); let x = be(p.scalar@); let g = smul(x, h);
        let cb = chal(p.point.p@, h, g, smul(kg, gbase()), smul(kg, h));
        assert(ret.1@.subrange(0, 33) =~= ptenc(g)); assert(ret.1@.subrange(33, 49) =~= cb); 
        assert(vrf_made(x, p.point.p@, h, kg, ret.1@)); }
//@end
//@go crypto/vrf/p256.PublicKey.verify
pub fn vp_verify(p: vp_PublicKey, m: Slice<u8>, proof_: Slice<u8>) -> (r: Option<GoErr>)
    ensures r.is_none() <==> vrf_ok(p.point.p@, m@, proof_@)
//@hint after call vp_encodeToCurve 1
    proof { let cb = proof_@.subrange(33, 49); ax_pad(cb); assert(c@ =~= Seq::new(16, |i: int| 0u8) + cb); assert(c@.subrange(16, 32) =~= cb); assert(proof_@.subrange(49, proof_@.len() as int) == proof_@.subrange(49, 81));
        vstd::arithmetic::div_mod::lemma_small_mod(be(cb) as nat, ord() as nat); vstd::arithmetic::div_mod::lemma_small_mod(be(proof_@.subrange(49, 81)) as nat, ord() as nat); }
//@end
//@go crypto/vrf/p256.PublicKey.Verify
pub fn vp_Verify(p: vp_PublicKey, m: Slice<u8>, proof_: Slice<u8>) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() <==> vrf_ok(p.point.p@, m@, proof_@), r.1.is_none() ==> r.0@ == p2h(proof_@.subrange(0, 33))
//@end
//@go crypto/vrf/p256.NewPublicKey
pub fn vp_NewPublicKey(raw: Slice<u8>) -> (r: (vp_PublicKey, Option<GoErr>)) ensures r.1.is_none() <==> raw@.len() != 1 && ptdec(raw@).is_some(), r.1.is_none() ==> r.0.point.p@ == ptdec(raw@).unwrap()
//@end
// C20: the proof made by the private key verifies under its public key, for the same output
pub proof fn prop_vrf_complete(x: int, y: int, h: int, k: int, m: Seq<u8>, pi: Seq<u8>)
    requires 1 <= x < ord(), y == smul(x, gbase()), h2c(ptenc(y), m, 0) == Some(h), h != ginf(), vrf_made(x, y, h, k, pi),
        be(pi.subrange(49, 81)) != 0, // an event of probability 2^-256
    ensures vrf_ok(y, m, pi), p2h(pi.subrange(0, 33)) == p2h(ptenc(smul(x, h)))
{
    let cb = chal(y, h, smul(x, h), smul(k, gbase()), smul(k, h)); let c = be(cb);
    vstd::arithmetic::div_mod::lemma_mod_bound(c * x + k, ord());
    ax_muladd(c, x, k, gbase()); ax_muladd(c, x, k, h);
    ax_cancel(smul(c, y), smul(k, gbase())); ax_cancel(smul(c, smul(x, h)), smul(k, h));
}
