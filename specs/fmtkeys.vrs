//@use prelude.vrs
pub type Bytes = Seq<u8>;
// Trusted: hexadecimal and decimal formatting are injective and use only their digits.
pub mod axioms { use vstd::prelude::*; verus! {
pub type Bytes = Seq<u8>;
pub uninterp spec fn hex(b: Bytes) -> Bytes;
pub uninterp spec fn hexnum(n: u32) -> Bytes;
pub uninterp spec fn dec(n: u64) -> Bytes;
pub open spec fn hexchar(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 }

#[verifier::external_body]
pub broadcast proof fn axiom_hex(b: Bytes) ensures #![trigger hex(b)] forall|i: int| 0 <= i < hex(b).len() ==> hexchar(#[trigger] hex(b)[i]) { }
#[verifier::external_body]
pub broadcast proof fn axiom_hexnum(n: u32) ensures #![trigger hexnum(n)] forall|i: int| 0 <= i < hexnum(n).len() ==> hexchar(#[trigger] hexnum(n)[i]) { }
#[verifier::external_body]
pub broadcast proof fn axiom_dec(n: u64) ensures #![trigger dec(n)] dec(n).len() > 0 && 48 <= dec(n)[0] <= 57 { }
#[verifier::external_body]
pub broadcast proof fn axiom_hex_inj(a: Bytes, b: Bytes) ensures #![trigger hex(a), hex(b)] hex(a) == hex(b) ==> a == b { }
#[verifier::external_body]
pub broadcast proof fn axiom_hexnum_inj(a: u32, b: u32) ensures #![trigger hexnum(a), hexnum(b)] hexnum(a) == hexnum(b) ==> a == b { }
#[verifier::external_body]
pub broadcast proof fn axiom_dec_inj(a: u64, b: u64) ensures #![trigger dec(a), dec(b)] dec(a) == dec(b) ==> a == b { }
} }
pub use axioms::{hex, hexnum, dec, hexchar};
broadcast use axioms::axiom_hex, axioms::axiom_hexnum, axioms::axiom_dec, axioms::axiom_hex_inj, axioms::axiom_hexnum_inj, axioms::axiom_dec_inj;
//@ext fmt.Sprintf|%x
pub fn fmt_hex(b: Slice<u8>) -> (r: Str) ensures r.s@ == hex(b@)
//@end
pub proof fn lemma_colon(a: Bytes, c: Bytes, b: Bytes, d: Bytes)
    requires a + seq![58u8] + c == b + seq![58u8] + d, forall|i: int| 0 <= i < a.len() ==> hexchar(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> hexchar(#[trigger] b[i])
    ensures a == b, c == d
{
    let x = a + seq![58u8] + c; let y = b + seq![58u8] + d;
    assert(x[a.len() as int] == 58u8 && y[b.len() as int] == 58u8);
    if a.len() < b.len() { assert(y[a.len() as int] == b[a.len() as int]); }
    if b.len() < a.len() { assert(x[b.len() as int] == a[b.len() as int]); }
    assert(x.subrange(0, a.len() as int) =~= a && y.subrange(0, b.len() as int) =~= b);
    assert(x.subrange(a.len() as int + 1, x.len() as int) =~= c && y.subrange(b.len() as int + 1, y.len() as int) =~= d);
}
