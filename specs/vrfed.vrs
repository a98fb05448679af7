//@use buf.vrs
// ---- C20: ECVRF-EDWARDS25519. Trusted: the group laws of the curve, its point
// and scalar encodings, and SHA-512.
pub struct Pt { pub p: Ghost<int> }
impl Clone for Pt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Pt {}
impl Pt { #[verifier::external_body] pub fn zero() -> (r: Self) { unimplemented!() } }
pub struct Sc { pub s: Ghost<int> }
impl Clone for Sc { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Sc {}
impl Sc { #[verifier::external_body] pub fn zero() -> (r: Self) { unimplemented!() } }
pub struct VrfPub { pub id: Ghost<int> }
impl Clone for VrfPub { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for VrfPub {}
//@typemap filippo.io/edwards25519.Point Pt Pt::zero()
//@typemap filippo.io/edwards25519.Scalar Sc Sc::zero()
//@nonnil filippo.io/edwards25519.Point filippo.io/edwards25519.Scalar crypto/vrf/edwards25519.PrivateKey crypto/vrf/edwards25519.PublicKey
pub mod edax {
use vstd::prelude::*;
verus! {
pub uninterp spec fn gadd(a: int, b: int) -> int;
pub uninterp spec fn gneg(a: int) -> int;
pub uninterp spec fn gid() -> int;
pub uninterp spec fn smul(s: int, p: int) -> int;
pub uninterp spec fn mul8(p: int) -> int;
pub uninterp spec fn gbase() -> int;
// in the subgroup of prime order
pub uninterp spec fn prime_ord(p: int) -> bool;
pub uninterp spec fn ell() -> int;
pub uninterp spec fn ptenc(p: int) -> Seq<u8>;
pub uninterp spec fn ptdec(b: Seq<u8>) -> Option<int>;
pub uninterp spec fn scenc(s: int) -> Seq<u8>;
pub uninterp spec fn scdec(b: Seq<u8>) -> Option<int>;
pub uninterp spec fn clamp(b: Seq<u8>) -> int;
pub uninterp spec fn uniform(b: Seq<u8>) -> int;
pub uninterp spec fn sha512(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn ax_pt(p: int) ensures (#[trigger] ptenc(p)).len() == 32, ptdec(ptenc(p)) == Some(p) {}
#[verifier::external_body]
pub broadcast proof fn ax_sc(s: int) requires 0 <= s < ell() ensures (#[trigger] scenc(s)).len() == 32, scdec(scenc(s)) == Some(s) {}
#[verifier::external_body]
pub broadcast proof fn ax_dec(b: Seq<u8>) ensures (#[trigger] scdec(b)).is_some() ==> b.len() == 32 && 0 <= scdec(b).unwrap() < ell() {}
#[verifier::external_body]
pub broadcast proof fn ax_pdec(b: Seq<u8>) ensures (#[trigger] ptdec(b)).is_some() ==> b.len() == 32 {}
// the order exceeds 2^128
#[verifier::external_body]
pub broadcast proof fn ax_small(b: Seq<u8>) requires b.len() == 32, forall|i: int| 16 <= i < 32 ==> b[i] == 0 ensures (#[trigger] scdec(b)).is_some() {}
#[verifier::external_body]
pub broadcast proof fn ax_sha(b: Seq<u8>) ensures (#[trigger] sha512(b)).len() == 64 {}
#[verifier::external_body]
pub broadcast proof fn ax_uniform(b: Seq<u8>) ensures 0 <= #[trigger] uniform(b) < ell() {}
#[verifier::external_body]
pub broadcast proof fn ax_clamp(b: Seq<u8>) ensures 0 <= #[trigger] clamp(b) < ell() {}
#[verifier::external_body]
pub broadcast proof fn ax_ord(p: int) ensures prime_ord(#[trigger] mul8(p)) {}
#[verifier::external_body]
pub broadcast proof fn ax_ordb() ensures #[trigger] prime_ord(gbase()) {}
// s*c + k times Q is s times (c times Q) plus k times Q
#[verifier::external_body]
pub proof fn ax_muladd(c: int, x: int, k: int, q: int) requires prime_ord(q) ensures smul((c * x + k) % ell(), q) == gadd(smul(c, smul(x, q)), smul(k, q)) {}
#[verifier::external_body]
pub proof fn ax_cancel(a: int, b: int) ensures gadd(gadd(a, b), gneg(a)) == b {}
} }
pub use edax::*;
broadcast use {edax::ax_pt, edax::ax_sc, edax::ax_dec, edax::ax_pdec, edax::ax_small, edax::ax_sha, edax::ax_uniform, edax::ax_clamp, edax::ax_ord, edax::ax_ordb};

//@ext crypto/sha512.Sum512
pub fn go_sha512(b: Slice<u8>) -> (r: Slice<u8>) ensures r@ == sha512(b@)
//@end
//@ext filippo.io/edwards25519.Point.SetBytes
//@attr retrecv
pub fn pt_SetBytes(p: &mut Pt, b: Slice<u8>) -> (r: (Pt, Option<GoErr>))
    ensures r.1.is_none() <==> ptdec(b@).is_some(), r.1.is_none() ==> r.0.p@ == ptdec(b@).unwrap() && *final(p) == r.0
//@end
//@ext filippo.io/edwards25519.Point.Bytes
pub fn pt_Bytes(p: Pt) -> (r: Slice<u8>) ensures r@ == ptenc(p.p@)
//@end
//@ext filippo.io/edwards25519.Point.MultByCofactor
//@attr retrecv
pub fn pt_MulCof(p: &mut Pt, q: Pt) -> (r: Pt) ensures r.p@ == mul8(q.p@), *final(p) == r
//@end
//@ext filippo.io/edwards25519.Point.ScalarMult
//@attr retrecv
pub fn pt_Mul(p: &mut Pt, x: Sc, q: Pt) -> (r: Pt) ensures r.p@ == smul(x.s@, q.p@), *final(p) == r
//@end
//@ext filippo.io/edwards25519.Point.ScalarBaseMult
//@attr retrecv
pub fn pt_BaseMul(p: &mut Pt, x: Sc) -> (r: Pt) ensures r.p@ == smul(x.s@, gbase()), *final(p) == r
//@end
//@ext filippo.io/edwards25519.Point.Add
//@attr retrecv
pub fn pt_Add(p: &mut Pt, a: Pt, b: Pt) -> (r: Pt) ensures r.p@ == gadd(a.p@, b.p@), *final(p) == r
//@end
//@ext filippo.io/edwards25519.Point.Negate
//@attr retrecv
pub fn pt_Neg(p: &mut Pt, a: Pt) -> (r: Pt) ensures r.p@ == gneg(a.p@), *final(p) == r
//@end
//@ext filippo.io/edwards25519.Point.Equal
pub fn pt_Equal(p: Pt, a: Pt) -> (r: i64) ensures r == (if p.p@ == a.p@ { 1int } else { 0 })
//@end
//@ext filippo.io/edwards25519.NewIdentityPoint
pub fn pt_Id() -> (r: Pt) ensures r.p@ == gid()
//@end
//@ext filippo.io/edwards25519.Scalar.SetUniformBytes
//@attr retrecv
pub fn sc_Uniform(s: &mut Sc, b: Slice<u8>) -> (r: (Sc, Option<GoErr>)) ensures r.1.is_none() <==> b@.len() == 64, r.1.is_none() ==> r.0.s@ == uniform(b@) && *final(s) == r.0
//@end
//@ext filippo.io/edwards25519.Scalar.SetBytesWithClamping
//@attr retrecv
pub fn sc_Clamp(s: &mut Sc, b: Slice<u8>) -> (r: (Sc, Option<GoErr>)) ensures r.1.is_none() <==> b@.len() == 32, r.1.is_none() ==> r.0.s@ == clamp(b@) && *final(s) == r.0
//@end
//@ext filippo.io/edwards25519.Scalar.SetCanonicalBytes
//@attr retrecv
pub fn sc_Canon(s: &mut Sc, b: Slice<u8>) -> (r: (Sc, Option<GoErr>)) ensures r.1.is_none() <==> scdec(b@).is_some(), r.1.is_none() ==> r.0.s@ == scdec(b@).unwrap() && *final(s) == r.0
//@end
//@ext filippo.io/edwards25519.Scalar.MultiplyAdd
//@attr retrecv
pub fn sc_MulAdd(s: &mut Sc, x: Sc, y: Sc, z: Sc) -> (r: Sc) ensures r.s@ == (x.s@ * y.s@ + z.s@) % ell(), 0 <= r.s@ < ell(), *final(s) == r
//@end
//@ext filippo.io/edwards25519.Scalar.Bytes
pub fn sc_Bytes(s: Sc) -> (r: Slice<u8>) ensures r@ == scenc(s.s@)
//@end

// RFC 9381, section 5
pub open spec fn h2c_str(salt: Seq<u8>, m: Seq<u8>, c: int) -> Seq<u8> { seq![3u8, 1u8] + salt + m + seq![c as u8, 0u8] }
pub open spec fn h2c(salt: Seq<u8>, m: Seq<u8>, c: int) -> Option<int> decreases 256 - c {
    if c < 0 || c > 255 { None }
    else { match ptdec(sha512(h2c_str(salt, m, c)).subrange(0, 32)) { Some(p) => Some(mul8(p)), None => h2c(salt, m, c + 1) } }
}
pub open spec fn chal(p1: int, p2: int, p3: int, p4: int, p5: int) -> Seq<u8> {
    sha512(seq![3u8, 2u8] + ptenc(p1) + ptenc(p2) + ptenc(p3) + ptenc(p4) + ptenc(p5) + seq![0u8]).subrange(0, 16)
}
pub open spec fn p2h(g: int) -> Seq<u8> { sha512(seq![3u8, 3u8] + ptenc(mul8(g)) + seq![0u8]).subrange(0, 32) }
pub open spec fn pad32(c: Seq<u8>) -> Seq<u8> { c + Seq::new(16, |i: int| 0u8) }
pub open spec fn nonce(upper: Seq<u8>, h: Seq<u8>) -> int { uniform(sha512(upper + h)) }
// the verification equation
pub open spec fn vrf_ok(y: int, m: Seq<u8>, pi: Seq<u8>) -> bool {
    &&& pi.len() == 80
    &&& ptdec(pi.subrange(0, 32)).is_some() && scdec(pi.subrange(48, 80)).is_some()
    &&& h2c(ptenc(y), m, 0).is_some()
    &&& ({ let g = ptdec(pi.subrange(0, 32)).unwrap(); let cb = pi.subrange(32, 48); let c = scdec(pad32(cb)).unwrap(); let s = scdec(pi.subrange(48, 80)).unwrap(); let h = h2c(ptenc(y), m, 0).unwrap();
        cb == chal(y, h, g, gadd(smul(s, gbase()), gneg(smul(c, y))), gadd(smul(s, h), gneg(smul(c, g)))) })
}
pub open spec fn vrf_proof(x: int, y: int, upper: Seq<u8>, h: int) -> Seq<u8> {
    let g = smul(x, h); let k = nonce(upper, ptenc(h));
    let cb = chal(y, h, g, smul(k, gbase()), smul(k, h));
    ptenc(g) + cb + scenc((scdec(pad32(cb)).unwrap() * x + k) % ell())
}
pub open spec fn sk_ok(k: ve_PrivateKey) -> bool { k.point.p@ == smul(k.scalar.s@, gbase()) && k.upper@.len() == 32 }

//@go crypto/vrf/edwards25519.encodeToCurve
//@attr maypanic
pub fn ve_encodeToCurve(salt: Slice<u8>, m: Slice<u8>) -> (r: Pt) ensures h2c(salt@, m@, 0) == Some(r.p@), prime_ord(r.p@)
//@loop 1
    invariant 0 <= counter <= 255, h2c(salt@, m@, 0) == h2c(salt@, m@, counter as int),
    decreases 256 - counter
//@hint after call go_sha512 1
    proof { assert(buf@ =~= h2c_str(salt@, m@, counter as int)); }
//@end
//@go crypto/vrf/edwards25519.generateNonce
pub fn ve_generateNonce(lower: Slice<u8>, hStr: Slice<u8>) -> (r: Sc) ensures r.s@ == nonce(lower@, hStr@)
//@hint after call go_sha512 1
    proof { assert(RES@.subrange(0, RES@.len() as int) =~= RES@); }
//@end
//@go crypto/vrf/edwards25519.generateChallenge
pub fn ve_generateChallenge(p1: Pt, p2: Pt, p3: Pt, p4: Pt, p5: Pt) -> (r: Slice<u8>) ensures r@ == pad32(chal(p1.p@, p2.p@, p3.p@, p4.p@, p5.p@)), r@.len() == 32
//@loop 1
    invariant 16 <= i <= 32, cStr@.len() == 64, cStr@.subrange(0, 16) == chal(p1.p@, p2.p@, p3.p@, p4.p@, p5.p@), forall|j: int| 16 <= j < i ==> cStr@[j] == 0
    decreases 32 - i
//@hint after call go_sha512 1
    proof { assert(buf@ =~= seq![3u8, 2u8] + ptenc(p1.p@) + ptenc(p2.p@) + ptenc(p3.p@) + ptenc(p4.p@) + ptenc(p5.p@) + seq![0u8]); }
//@hint loop 1 bottom
    proof { assert(cStr@.subrange(0, 16) =~= chal(p1.p@, p2.p@, p3.p@, p4.p@, p5.p@)); }
//@hint return
    proof { assert(ret@ =~= pad32(chal(p1.p@, p2.p@, p3.p@, p4.p@, p5.p@))) by { assert forall|j: int| 0 <= j < 16 implies ret@[j] == cStr@.subrange(0, 16)[j] by {}; }; }
//@end
//@go crypto/vrf/edwards25519.proofToHash
pub fn ve_proofToHash(Gamma: Pt) -> (r: Slice<u8>) ensures r@ == p2h(Gamma.p@)
//@hint after call go_sha512 1
    proof { assert(buf@ =~= seq![3u8, 3u8] + ptenc(mul8(Gamma.p@)) + seq![0u8]); }
//@end
//@go crypto/vrf/edwards25519.NewPrivateKey
pub fn ve_NewPrivateKey(raw: Slice<u8>) -> (r: (ve_PrivateKey, Option<GoErr>)) ensures r.1.is_none() <==> raw@.len() == 32, r.1.is_none() ==> sk_ok(r.0)
//@end
//@go crypto/vrf/edwards25519.PrivateKey.Prove
pub fn ve_Prove(p: ve_PrivateKey, m: Slice<u8>) -> (r: (Slice<u8>, Slice<u8>))
    requires sk_ok(p)
    ensures h2c(ptenc(p.point.p@), m@, 0).is_some(), ({ let h = h2c(ptenc(p.point.p@), m@, 0).unwrap();
        r.1@ == vrf_proof(p.scalar.s@, p.point.p@, p.upper@, h) && r.0@ == p2h(smul(p.scalar.s@, h)) && prime_ord(h) })
//@hint return
    proof { let h = h2c(ptenc(p.point.p@), m@, 0).unwrap(); let x = p.scalar.s@; let g = smul(x, h); let k = nonce(p.upper@, ptenc(h));
        let cb = chal(p.point.p@, h, g, smul(k, gbase()), smul(k, h));
        assert(pad32(cb).subrange(0, 16) =~= cb);
        assert(ret.1@ =~= vrf_proof(x, p.point.p@, p.upper@, h)); }
//@end
//@go crypto/vrf/edwards25519.PublicKey.Verify
pub fn ve_Verify(p: ve_PublicKey, m: Slice<u8>, proof_: Slice<u8>) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() <==> vrf_ok(p.point.p@, m@, proof_@), r.1.is_none() ==> r.0@ == p2h(ptdec(proof_@.subrange(0, 32)).unwrap())
//@hint before call sc_Canon 1
    proof { assert(cBytes@ =~= pad32(proof_@.subrange(32, 48))); }
//@hint after call ve_generateChallenge 1
    proof { pad_inj(RES@.subrange(0, 16), proof_@.subrange(32, 48)); assert(proof_@.subrange(48, proof_@.len() as int) == proof_@.subrange(48, 80));
        let y = p.point.p@; let g = ptdec(proof_@.subrange(0, 32)).unwrap(); let cc = scdec(pad32(proof_@.subrange(32, 48))).unwrap(); let ss = scdec(proof_@.subrange(48, 80)).unwrap(); let h = h2c(ptenc(y), m@, 0).unwrap();
        let e = chal(y, h, g, gadd(smul(ss, gbase()), gneg(smul(cc, y))), gadd(smul(ss, h), gneg(smul(cc, g))));
        assert(RES@ == pad32(e)); assert(RES@.subrange(0, 16) =~= e); }
//@end
pub proof fn pad_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == 16, b.len() == 16 ensures pad32(a) == pad32(b) <==> a == b
{ assert(pad32(a).subrange(0, 16) =~= a); assert(pad32(b).subrange(0, 16) =~= b); }
//@go crypto/vrf/edwards25519.NewPublicKey
pub fn ve_NewPublicKey(raw: Slice<u8>) -> (r: (ve_PublicKey, Option<GoErr>)) ensures r.1.is_none() <==> ptdec(raw@).is_some() && mul8(ptdec(raw@).unwrap()) != gid(), r.1.is_none() ==> r.0.point.p@ == ptdec(raw@).unwrap()
//@end
// C20: the proof made by the private key verifies under its public key, for the same output
pub proof fn prop_vrf_complete(k: ve_PrivateKey, m: Seq<u8>)
    requires sk_ok(k), h2c(ptenc(k.point.p@), m, 0).is_some(), prime_ord(h2c(ptenc(k.point.p@), m, 0).unwrap())
    ensures ({ let h = h2c(ptenc(k.point.p@), m, 0).unwrap(); let pi = vrf_proof(k.scalar.s@, k.point.p@, k.upper@, h);
        vrf_ok(k.point.p@, m, pi) && p2h(ptdec(pi.subrange(0, 32)).unwrap()) == p2h(smul(k.scalar.s@, h)) })
{
    let y = k.point.p@; let x = k.scalar.s@; let h = h2c(ptenc(y), m, 0).unwrap(); let g = smul(x, h); let kk = nonce(k.upper@, ptenc(h));
    let cb = chal(y, h, g, smul(kk, gbase()), smul(kk, h)); let c = scdec(pad32(cb)).unwrap(); let s = (c * x + kk) % ell();
    let pi = vrf_proof(x, y, k.upper@, h);
    assert(uniform(sha512(k.upper@ + ptenc(h))) < ell());
    assert(0 <= s < ell()) by(nonlinear_arith) requires s == (c * x + kk) % ell(), ell() > 0;
    assert(pi.subrange(0, 32) =~= ptenc(g)); assert(pi.subrange(32, 48) =~= cb); assert(pi.subrange(48, 80) =~= scenc(s));
    assert(scdec(pad32(cb)).is_some());
    ax_muladd(c, x, kk, gbase()); ax_muladd(c, x, kk, h);
    ax_cancel(smul(c, y), smul(kk, gbase())); ax_cancel(smul(c, g), smul(kk, h));
}
