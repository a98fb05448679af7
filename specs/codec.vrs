//@use fmt.vrs
//@use keys.vrs
//@use psr.vrs
// ---- C14, C15: the codecs
//@nonnil tree/transparency/structs.LabelValue tree/transparency/structs.MonitorMapEntry tree/transparency/structs.UpdateSuffix tree/transparency/structs.UpdateValue tree/transparency/structs.LogEntry tree/transparency/structs.BinaryLadderStep tree/transparency/structs.OpeningAndValue tree/transparency/structs.UpdateInfo tree/transparency/structs.InclusionProof tree/transparency/structs.CombinedTreeProof tree/transparency/structs.FullTreeHead tree/transparency/structs.SearchRequest tree/transparency/structs.SearchResponse tree/transparency/structs.ContactMonitorRequest tree/transparency/structs.ContactMonitorResponse tree/transparency/structs.OwnerInitRequest tree/transparency/structs.OwnerInitResponse tree/transparency/structs.OwnerMonitorRequest tree/transparency/structs.OwnerMonitorResponse tree/transparency/structs.UpdateRequest tree/transparency/structs.ManagerUpdateRequest tree/transparency/structs.UpdateResponse tree/transparency/structs.CommitmentValue tree/transparency/structs.VrfInput tree/transparency/structs.AuditorUpdate tree/transparency/structs.IndexedLogEntry tree/transparency/structs.RetainedVersion tree/transparency/structs.ClientLabelState tree/transparency/structs.PublicConfig tree/transparency/structs.UpdateTBS tree/transparency/structs.TreeHeadTBS tree/transparency/structs.AuditorTreeHeadTBS tree/prefix.PrefixProof tree/prefix.Entry tree/transparency/structs.ClientState tree/transparency/structs.PublicConfig
// Left-nested concatenations are rewritten to the right.
pub mod fmtax { use vstd::prelude::*; verus! {
pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn seq_push(a: Seq<u8>, x: u8) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
pub uninterp spec fn vpsize(cs: super::Suite) -> int;
pub uninterp spec fn opsize(cs: super::Suite) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_vpsize(cs: super::Suite) ensures 1 <= #[trigger] vpsize(cs) <= 0xffff {}
#[verifier::external_body]
pub broadcast proof fn axiom_opsize(cs: super::Suite) ensures 1 <= #[trigger] opsize(cs) <= 0xffff {}
} }
pub use fmtax::{vpsize, opsize};
broadcast use fmtax::seq_assoc, fmtax::seq_push, fmtax::axiom_vpsize, fmtax::axiom_opsize;
//@ext crypto/suites.CipherSuite.VrfProofSize
pub fn suite_VrfProofSize(cs: Suite) -> (r: i64) ensures r == vpsize(cs)
//@end
//@ext crypto/suites.CipherSuite.CommitmentOpeningSize
pub fn suite_CommitmentOpeningSize(cs: Suite) -> (r: i64) ensures r == opsize(cs)
//@end
// pow256 and one-byte integers, computed
pub proof fn lemma_pows() ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow256, 10); }
pub proof fn lemma_one(x: int) requires 0 <= x < 256 ensures unbe(x, 1) == seq![x as u8] { reveal_with_fuel(unbe, 3); assert(unbe(x, 1) =~= seq![x as u8]); }
pub proof fn lemma_cat<F: Fmt, G: Fmt>(f: F, g: G, x: F::V, y: G::V, b0: B, b1: B, b2: B, e: bool) requires writes(f, x, b0, b1, false), writes(g, y, b1, b2, e) ensures writes((f, g), (x, y), b0, b2, e) { assert((b0 + f.enc(x)) + g.enc(y) =~= b0 + (f.enc(x) + g.enc(y))); }
pub proof fn lemma_be1(x: B) requires x.len() > 0 ensures be(take(x, 1)) == x[0], (UInt { n: 1 }).parse(x) == Some((x[0] as int, rest_of(x, 1))) { reveal_with_fuel(be, 3); let t = take(x, 1); assert(t.drop_last() =~= Seq::empty()); assert(t.last() == x[0]); }
pub open spec fn views(s: Seq<Slice<u8>>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn nums_u32(s: Seq<u32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn nums_u64(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn ov_u32(x: Option<u32>) -> Option<int> { match x { Some(y) => Some(y as int), None => None } }
pub open spec fn ov_u64(x: Option<u64>) -> Option<int> { match x { Some(y) => Some(y as int), None => None } }
// as an encoder is told: element sizes come with the elements
pub open spec fn e_bytes() -> Fixed { Fixed { n: hsize(any_cs()) } }
pub open spec fn nilopt(x: Slice<u8>) -> Option<B> { if x.nil@ { None } else { Some(x@) } }
//@go tree/transparency/structs.readNumeric[u8]
pub fn st_readNumeric_u8(buf_r: &mut Buf) -> (r: (u8, Option<GoErr>)) ensures reads(UInt { n: 1 }, old(buf_r)@, r.0 as int, final(buf_r)@, r.1.is_some())
//@end
//@go tree/transparency/structs.writeNumeric[u8]
pub fn st_writeNumeric_u8(buf_r: &mut Buf, val: u8) ensures final(buf_r)@ == old(buf_r)@ + unbe(val as int, 1)
//@end
//@go tree/transparency/structs.readNumeric[u16]
pub fn st_readNumeric_u16(buf_r: &mut Buf) -> (r: (u16, Option<GoErr>)) ensures reads(UInt { n: 2 }, old(buf_r)@, r.0 as int, final(buf_r)@, r.1.is_some())
//@end
//@go tree/transparency/structs.writeNumeric[u16]
pub fn st_writeNumeric_u16(buf_r: &mut Buf, val: u16) ensures final(buf_r)@ == old(buf_r)@ + unbe(val as int, 2)
//@end
//@go tree/transparency/structs.readNumeric[u32]
pub fn st_readNumeric_u32(buf_r: &mut Buf) -> (r: (u32, Option<GoErr>)) ensures reads(UInt { n: 4 }, old(buf_r)@, r.0 as int, final(buf_r)@, r.1.is_some())
//@end
//@go tree/transparency/structs.writeNumeric[u32]
pub fn st_writeNumeric_u32(buf_r: &mut Buf, val: u32) ensures final(buf_r)@ == old(buf_r)@ + unbe(val as int, 4)
//@end
//@go tree/transparency/structs.readNumeric[u64]
pub fn st_readNumeric_u64(buf_r: &mut Buf) -> (r: (u64, Option<GoErr>)) ensures reads(UInt { n: 8 }, old(buf_r)@, r.0 as int, final(buf_r)@, r.1.is_some())
//@end
//@go tree/transparency/structs.writeNumeric[u64]
pub fn st_writeNumeric_u64(buf_r: &mut Buf, val: u64) ensures final(buf_r)@ == old(buf_r)@ + unbe(val as int, 8)
//@end
//@go tree/transparency/structs.readOptional
pub fn st_readOptional(buf_r: &mut Buf) -> (r: (bool, Option<GoErr>)) ensures r.1.is_none() <==> old(buf_r)@.len() > 0 && old(buf_r)@[0] <= 1, r.1.is_none() ==> r.0 == (old(buf_r)@[0] == 1) && final(buf_r)@ == rest_of(old(buf_r)@, 1)
//@end
//@go tree/transparency/structs.writeOptional
pub fn st_writeOptional(buf_r: &mut Buf, present: bool) -> (r: bool) ensures r == present, final(buf_r)@ == old(buf_r)@ + seq![if present { 1u8 } else { 0u8 }]
//@end
//@go tree/transparency/structs.checkSize
pub fn st_checkSize(buf: Buf, size: i64) -> (r: Option<GoErr>) ensures r.is_some() <==> size > buf@.len()
//@end
//@go tree/transparency/structs.readOptionalNumeric[u32]
pub fn st_readOptionalNumeric_u32(buf_r: &mut Buf) -> (r: (Option<u32>, Option<GoErr>)) ensures reads(Opt { f: UInt { n: 4 } }, old(buf_r)@, ov_u32(r.0), final(buf_r)@, r.1.is_some())
//@end
//@go tree/transparency/structs.writeOptionalNumeric[u32]
pub fn st_writeOptionalNumeric_u32(buf_r: &mut Buf, val: Option<u32>) ensures writes(Opt { f: UInt { n: 4 } }, ov_u32(val), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readOptionalNumeric[u64]
pub fn st_readOptionalNumeric_u64(buf_r: &mut Buf) -> (r: (Option<u64>, Option<GoErr>)) ensures reads(Opt { f: UInt { n: 8 } }, old(buf_r)@, ov_u64(r.0), final(buf_r)@, r.1.is_some())
//@end
//@go tree/transparency/structs.writeOptionalNumeric[u64]
pub fn st_writeOptionalNumeric_u64(buf_r: &mut Buf, val: Option<u64>) ensures writes(Opt { f: UInt { n: 8 } }, ov_u64(val), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.max[u8]
pub fn st_max_u8() -> (r: i64) ensures r == pow256(1) - 1
//@hint entry
    proof { lemma_pows(); assert(!0u8 == 255u8) by(bit_vector); assert(!0u16 == 65535u16) by(bit_vector); assert(!0u32 == 0xffff_ffffu32) by(bit_vector); }
//@end
//@go tree/transparency/structs.readBytes[u8]
pub fn st_readBytes_u8(buf_r: &mut Buf) -> (r: (Slice<u8>, Option<GoErr>)) ensures reads(Bytes { n: 1 }, old(buf_r)@, r.0@, final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.writeBytes[u8]
pub fn st_writeBytes_u8(buf_r: &mut Buf, out: Slice<u8>, name: Str) -> (r: Option<GoErr>) ensures writes(Bytes { n: 1 }, out@, old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.max[u16]
pub fn st_max_u16() -> (r: i64) ensures r == pow256(2) - 1
//@hint entry
    proof { lemma_pows(); assert(!0u8 == 255u8) by(bit_vector); assert(!0u16 == 65535u16) by(bit_vector); assert(!0u32 == 0xffff_ffffu32) by(bit_vector); }
//@end
//@go tree/transparency/structs.readBytes[u16]
pub fn st_readBytes_u16(buf_r: &mut Buf) -> (r: (Slice<u8>, Option<GoErr>)) ensures reads(Bytes { n: 2 }, old(buf_r)@, r.0@, final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.writeBytes[u16]
pub fn st_writeBytes_u16(buf_r: &mut Buf, out: Slice<u8>, name: Str) -> (r: Option<GoErr>) ensures writes(Bytes { n: 2 }, out@, old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.max[u32]
pub fn st_max_u32() -> (r: i64) ensures r == pow256(4) - 1
//@hint entry
    proof { lemma_pows(); assert(!0u8 == 255u8) by(bit_vector); assert(!0u16 == 65535u16) by(bit_vector); assert(!0u32 == 0xffff_ffffu32) by(bit_vector); }
//@end
//@go tree/transparency/structs.readBytes[u32]
pub fn st_readBytes_u32(buf_r: &mut Buf) -> (r: (Slice<u8>, Option<GoErr>)) ensures reads(Bytes { n: 4 }, old(buf_r)@, r.0@, final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.writeBytes[u32]
pub fn st_writeBytes_u32(buf_r: &mut Buf, out: Slice<u8>, name: Str) -> (r: Option<GoErr>) ensures writes(Bytes { n: 4 }, out@, old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readByteSlice[u8]
pub fn st_readByteSlice_u8(buf_r: &mut Buf, n: i64) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires 0 < n <= 0xffff
    ensures reads(List { n: 1, f: Fixed { n: n as int } }, old(buf_r)@, views(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(Fixed { n: n as int }, RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(views(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(Fixed { n: n as int }, IDX as nat, b1) == Some((views(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(Fixed { n: n as int }, IDX1 as nat, b1).is_none() { lemma_all_none(Fixed { n: n as int }, IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(views(out@.subrange(0, IDX1 as int)) =~= views(out0@.subrange(0, IDX1 - 1)).push(elem@)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeByteSlice[u8]
pub fn st_writeByteSlice_u8(buf_r: &mut Buf, out: Slice<Slice<u8>>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_bytes() }, views(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(views(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_bytes(), views(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_bytes()).fits(#[trigger] views(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = views(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= views(out@.subrange(0, IDX1 - 1))); assert(w.last() == views(out@)[IDX1 - 1]); assert(views(out@)[IDX1 - 1] == elem@); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readByteSlice[u16]
pub fn st_readByteSlice_u16(buf_r: &mut Buf, n: i64) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires 0 < n <= 0xffff
    ensures reads(List { n: 2, f: Fixed { n: n as int } }, old(buf_r)@, views(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u16 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(Fixed { n: n as int }, RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(views(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(Fixed { n: n as int }, IDX as nat, b1) == Some((views(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 2 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(Fixed { n: n as int }, IDX1 as nat, b1).is_none() { lemma_all_none(Fixed { n: n as int }, IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(views(out@.subrange(0, IDX1 as int)) =~= views(out0@.subrange(0, IDX1 - 1)).push(elem@)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeByteSlice[u16]
pub fn st_writeByteSlice_u16(buf_r: &mut Buf, out: Slice<Slice<u8>>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 2, f: e_bytes() }, views(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(views(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(2), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 2) + enc_all(e_bytes(), views(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_bytes()).fits(#[trigger] views(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = views(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= views(out@.subrange(0, IDX1 - 1))); assert(w.last() == views(out@)[IDX1 - 1]); assert(views(out@)[IDX1 - 1] == elem@); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readNumericSlice[u8,u64]
pub fn st_readNumericSlice_u8_u64(buf_r: &mut Buf) -> (r: (Slice<u64>, Option<GoErr>))
    ensures reads(List { n: 1, f: UInt { n: 8 } }, old(buf_r)@, nums_u64(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(UInt { n: 8 }, RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(nums_u64(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(UInt { n: 8 }, IDX as nat, b1) == Some((nums_u64(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(UInt { n: 8 }, IDX1 as nat, b1).is_none() { lemma_all_none(UInt { n: 8 }, IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(nums_u64(out@.subrange(0, IDX1 as int)) =~= nums_u64(out0@.subrange(0, IDX1 - 1)).push(val as int)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeNumericSlice[u8,u64]
pub fn st_writeNumericSlice_u8_u64(buf_r: &mut Buf, out: Slice<u64>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: UInt { n: 8 } }, nums_u64(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(nums_u64(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(UInt { n: 8 }, nums_u64(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (UInt { n: 8 }).fits(#[trigger] nums_u64(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = nums_u64(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= nums_u64(out@.subrange(0, IDX1 - 1))); assert(w.last() == nums_u64(out@)[IDX1 - 1]); assert(nums_u64(out@)[IDX1 - 1] == elem as int); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readNumericSlice[u8,u32]
pub fn st_readNumericSlice_u8_u32(buf_r: &mut Buf) -> (r: (Slice<u32>, Option<GoErr>))
    ensures reads(List { n: 1, f: UInt { n: 4 } }, old(buf_r)@, nums_u32(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(UInt { n: 4 }, RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(nums_u32(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(UInt { n: 4 }, IDX as nat, b1) == Some((nums_u32(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(UInt { n: 4 }, IDX1 as nat, b1).is_none() { lemma_all_none(UInt { n: 4 }, IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(nums_u32(out@.subrange(0, IDX1 as int)) =~= nums_u32(out0@.subrange(0, IDX1 - 1)).push(val as int)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeNumericSlice[u8,u32]
pub fn st_writeNumericSlice_u8_u32(buf_r: &mut Buf, out: Slice<u32>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: UInt { n: 4 } }, nums_u32(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(nums_u32(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(UInt { n: 4 }, nums_u32(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (UInt { n: 4 }).fits(#[trigger] nums_u32(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = nums_u32(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= nums_u32(out@.subrange(0, IDX1 - 1))); assert(w.last() == nums_u32(out@)[IDX1 - 1]); assert(nums_u32(out@)[IDX1 - 1] == elem as int); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readNumericSlice[u32,u64]
pub fn st_readNumericSlice_u32_u64(buf_r: &mut Buf) -> (r: (Slice<u64>, Option<GoErr>))
    ensures reads(List { n: 4, f: UInt { n: 8 } }, old(buf_r)@, nums_u64(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u32 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(UInt { n: 8 }, RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(nums_u64(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(UInt { n: 8 }, IDX as nat, b1) == Some((nums_u64(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 4 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(UInt { n: 8 }, IDX1 as nat, b1).is_none() { lemma_all_none(UInt { n: 8 }, IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(nums_u64(out@.subrange(0, IDX1 as int)) =~= nums_u64(out0@.subrange(0, IDX1 - 1)).push(val as int)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeNumericSlice[u32,u64]
pub fn st_writeNumericSlice_u32_u64(buf_r: &mut Buf, out: Slice<u64>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 4, f: UInt { n: 8 } }, nums_u64(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(nums_u64(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(4), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 4) + enc_all(UInt { n: 8 }, nums_u64(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (UInt { n: 8 }).fits(#[trigger] nums_u64(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = nums_u64(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= nums_u64(out@.subrange(0, IDX1 - 1))); assert(w.last() == nums_u64(out@)[IDX1 - 1]); assert(nums_u64(out@)[IDX1 - 1] == elem as int); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub uninterp spec fn any_config() -> st_PublicConfig;
pub open spec fn any_cs() -> Suite { any_config().Config.Suite }
pub type F_TreeHead = (UInt, Bytes);
pub open spec fn f_TreeHead() -> F_TreeHead { (UInt { n: 8 }, Bytes { n: 2 }) }
pub open spec fn e_TreeHead() -> F_TreeHead { f_TreeHead() }
pub open spec fn v_TreeHead(x: st_TreeHead) -> <F_TreeHead as Fmt>::V { ((x.TreeSize as int), x.Signature@) }
pub open spec fn vs_TreeHead(s: Seq<st_TreeHead>) -> Seq<<F_TreeHead as Fmt>::V> { Seq::new(s.len(), |i: int| v_TreeHead(s[i])) }
//@go tree/transparency/structs.NewTreeHead
pub fn st_NewTreeHead(buf_r: &mut Buf) -> (r: (Option<st_TreeHead>, Option<GoErr>)) ensures reads(f_TreeHead(), old(buf_r)@, v_TreeHead(r.0.unwrap()), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> r.0.is_some()
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.TreeHead.Marshal
pub fn st_TreeHead_Marshal(x: Option<st_TreeHead>, buf_r: &mut Buf) -> (r: Option<GoErr>) requires x.is_some() ensures writes(e_TreeHead(), v_TreeHead(x.unwrap()), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_AuditorTreeHead = (UInt, (UInt, Bytes));
pub open spec fn f_AuditorTreeHead() -> F_AuditorTreeHead { (UInt { n: 8 }, (UInt { n: 8 }, Bytes { n: 2 })) }
pub open spec fn e_AuditorTreeHead() -> F_AuditorTreeHead { f_AuditorTreeHead() }
pub open spec fn v_AuditorTreeHead(x: st_AuditorTreeHead) -> <F_AuditorTreeHead as Fmt>::V { ((x.Timestamp as int), ((x.TreeSize as int), x.Signature@)) }
pub open spec fn vs_AuditorTreeHead(s: Seq<st_AuditorTreeHead>) -> Seq<<F_AuditorTreeHead as Fmt>::V> { Seq::new(s.len(), |i: int| v_AuditorTreeHead(s[i])) }
//@go tree/transparency/structs.NewAuditorTreeHead
pub fn st_NewAuditorTreeHead(buf_r: &mut Buf) -> (r: (Option<st_AuditorTreeHead>, Option<GoErr>)) ensures reads(f_AuditorTreeHead(), old(buf_r)@, v_AuditorTreeHead(r.0.unwrap()), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> r.0.is_some()
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.AuditorTreeHead.Marshal
pub fn st_AuditorTreeHead_Marshal(x: Option<st_AuditorTreeHead>, buf_r: &mut Buf) -> (r: Option<GoErr>) requires x.is_some() ensures writes(e_AuditorTreeHead(), v_AuditorTreeHead(x.unwrap()), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_LabelValue = Bytes;
pub open spec fn f_LabelValue() -> F_LabelValue { Bytes { n: 4 } }
pub open spec fn e_LabelValue() -> F_LabelValue { f_LabelValue() }
pub open spec fn v_LabelValue(x: st_LabelValue) -> <F_LabelValue as Fmt>::V { x.Value@ }
pub open spec fn vs_LabelValue(s: Seq<st_LabelValue>) -> Seq<<F_LabelValue as Fmt>::V> { Seq::new(s.len(), |i: int| v_LabelValue(s[i])) }
//@go tree/transparency/structs.NewLabelValue
pub fn st_NewLabelValue(buf_r: &mut Buf) -> (r: (st_LabelValue, Option<GoErr>)) ensures reads(f_LabelValue(), old(buf_r)@, v_LabelValue(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.LabelValue.Marshal
pub fn st_LabelValue_Marshal(x: st_LabelValue, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_LabelValue(), v_LabelValue(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_MonitorMapEntry = (UInt, UInt);
pub open spec fn f_MonitorMapEntry() -> F_MonitorMapEntry { (UInt { n: 8 }, UInt { n: 4 }) }
pub open spec fn e_MonitorMapEntry() -> F_MonitorMapEntry { f_MonitorMapEntry() }
pub open spec fn v_MonitorMapEntry(x: st_MonitorMapEntry) -> <F_MonitorMapEntry as Fmt>::V { ((x.Position as int), (x.Version as int)) }
pub open spec fn vs_MonitorMapEntry(s: Seq<st_MonitorMapEntry>) -> Seq<<F_MonitorMapEntry as Fmt>::V> { Seq::new(s.len(), |i: int| v_MonitorMapEntry(s[i])) }
//@go tree/transparency/structs.NewMonitorMapEntry
pub fn st_NewMonitorMapEntry(buf_r: &mut Buf) -> (r: (st_MonitorMapEntry, Option<GoErr>)) ensures reads(f_MonitorMapEntry(), old(buf_r)@, v_MonitorMapEntry(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.MonitorMapEntry.Marshal
pub fn st_MonitorMapEntry_Marshal(x: st_MonitorMapEntry, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_MonitorMapEntry(), v_MonitorMapEntry(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readFuncSlice[u8,st_LabelValue]#tree/transparency/structs.NewLabelValue
pub fn st_readFuncSlice_u8_LabelValue(buf_r: &mut Buf) -> (r: (Slice<st_LabelValue>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_LabelValue() }, old(buf_r)@, vs_LabelValue(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_LabelValue(), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_LabelValue(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_LabelValue(), IDX as nat, b1) == Some((vs_LabelValue(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_LabelValue(), IDX1 as nat, b1).is_none() { lemma_all_none(f_LabelValue(), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_LabelValue(out@.subrange(0, IDX1 as int)) =~= vs_LabelValue(out0@.subrange(0, IDX1 - 1)).push(v_LabelValue(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,st_LabelValue,st_LabelValue]
pub fn st_writeMarshalSlice_u8_LabelValue(buf_r: &mut Buf, out: Slice<st_LabelValue>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_LabelValue() }, vs_LabelValue(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_LabelValue(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_LabelValue(), vs_LabelValue(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_LabelValue()).fits(#[trigger] vs_LabelValue(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_LabelValue(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_LabelValue(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_LabelValue(out@)[IDX1 - 1]); assert(vs_LabelValue(out@)[IDX1 - 1] == v_LabelValue(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_PSR = Tag3<UInt, (Fixed, (Fixed, UInt)), UInt>;
pub open spec fn f_PSR(cs: Suite) -> F_PSR { Tag3 { a: 1, c: 2, d: 3, f: UInt { n: 1 }, g: (Fixed { n: hsize(cs) }, (Fixed { n: hsize(cs) }, UInt { n: 1 })), h: UInt { n: 1 } } }
pub open spec fn e_PSR() -> F_PSR { f_PSR(any_cs()) }
// a depth is one byte on the wire (what a tree of 256-bit keys needs)
pub open spec fn v_PSR(r: PSR) -> <F_PSR as Fmt>::V { match r { PSR::Incl(p) => Or3::A(p.depth as int % 256), PSR::Leaf(p) => Or3::C((p.leaf.vrfOutput@, (p.leaf.commitment@, p.depth as int % 256))), PSR::Parent(p) => Or3::D(p.depth as int % 256), PSR::Nil => arbitrary() } }
pub open spec fn vs_PSR(s: Seq<PSR>) -> Seq<<F_PSR as Fmt>::V> { Seq::new(s.len(), |i: int| v_PSR(s[i])) }
pub proof fn like_PSR(cs: Suite) ensures f_PSR(cs).like(e_PSR()) {}
pub proof fn lemma_PSR_len(f: F_PSR, b: B) ensures match f.parse(b) { Some((v, r)) => true, None => true } { }
//@go tree/prefix.inclusionProof.Marshal
pub fn px_inclusionProof_Marshal(x: px_inclusionProof, buf_r: &mut Buf) ensures writes(e_PSR(), v_PSR(PSR::Incl(x)), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof { lemma_pows(); lemma_one(x.depth as int % 256); }
//@end
//@go tree/prefix.nonInclusionLeafProof.Marshal
pub fn px_nonInclusionLeafProof_Marshal(x: px_nonInclusionLeafProof, buf_r: &mut Buf) ensures writes(e_PSR(), v_PSR(PSR::Leaf(x)), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof { lemma_pows(); lemma_one(x.depth as int % 256); }
//@end
//@go tree/prefix.nonInclusionParentProof.Marshal
pub fn px_nonInclusionParentProof_Marshal(x: px_nonInclusionParentProof, buf_r: &mut Buf) ensures writes(e_PSR(), v_PSR(PSR::Parent(x)), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof { lemma_pows(); lemma_one(x.depth as int % 256); }
//@end
//@go tree/prefix.unmarshalSearchResult
pub fn px_unmarshalSearchResult(cs: Suite, buf_r: &mut Buf) -> (r: (PSR, Option<GoErr>)) ensures reads(f_PSR(cs), old(buf_r)@, v_PSR(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !(r.0 is Nil)
//@attr alloc buf@.len() + 0xffff
//@hint entry
    proof { lemma_pows(); let b = buf@; assert forall|x: B| #![trigger (UInt { n: 1 }).parse(x)] x.len() > 0 implies be(take(x, 1)) == x[0] by { lemma_be1(x); } }
//@end
pub type F_PrefixProof = (List<F_PSR>, List<Fixed>);
pub open spec fn f_PrefixProof(cs: Suite) -> F_PrefixProof { (List { n: 1, f: f_PSR(cs) }, List { n: 2, f: Fixed { n: hsize(cs) } }) }
pub open spec fn e_PrefixProof() -> F_PrefixProof { f_PrefixProof(any_cs()) }
pub open spec fn v_PrefixProof(x: px_PrefixProof) -> <F_PrefixProof as Fmt>::V { (vs_PSR(x.Results@), views(x.Elements@)) }
pub open spec fn vs_PrefixProof(s: Seq<px_PrefixProof>) -> Seq<<F_PrefixProof as Fmt>::V> { Seq::new(s.len(), |i: int| v_PrefixProof(s[i])) }
pub proof fn like_PrefixProof(cs: Suite) ensures f_PrefixProof(cs).like(e_PrefixProof()) {}
//@go tree/prefix.NewPrefixProof
pub fn px_NewPrefixProof(cs: Suite, buf_r: &mut Buf) -> (r: (px_PrefixProof, Option<GoErr>)) ensures reads(f_PrefixProof(cs), old(buf_r)@, v_PrefixProof(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> psr_nn(r.0.Results@)
//@attr alloc buf@.len() + 0xffff
//@hint entry
    let ghost b0 = buf@;
    let ghost mut b1 = b0;
    let ghost mut b2 = b0;
    let ghost mut b3 = b0;
    proof { lemma_pows(); if b0.len() > 0 { lemma_be1(b0); } }
//@hint after call buf_ReadByte 1
    proof { b1 = buf@; lemma_all_progress(f_PSR(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_PSR(results@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant results@.len() == SEQ, parse_all(f_PSR(cs), IDX as nat, b1) == Some((vs_PSR(results@.subrange(0, IDX as int)), buf@)),
        forall|i: int| 0 <= i < IDX ==> !(#[trigger] results@[i] is Nil),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = results;
    proof { if parse_all(f_PSR(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_PSR(cs), IDX1 as nat, SEQ1 as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_PSR(results@.subrange(0, IDX1 as int)) =~= vs_PSR(out0@.subrange(0, IDX1 - 1)).push(v_PSR(result))); }
//@hint after loop 1
    proof { assert(results@.subrange(0, results@.len() as int) =~= results@); b2 = buf@; assert((List { n: 1, f: f_PSR(cs) }).parse(b0) == Some((vs_PSR(results@), b2))); }
//@hint after call bin_Read_u16 1
    proof { b3 = buf@; lemma_all_progress(Fixed { n: hsize(cs) }, numElements as nat, b3); }
//@hint before loop 2
    proof { assert(views(elements@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 2
    invariant elements@.len() == SEQ, parse_all(Fixed { n: hsize(cs) }, IDX as nat, b3) == Some((views(elements@.subrange(0, IDX as int)), buf@)),
    decreases SEQ - IDX
//@hint loop 2 top
    let ghost out0 = elements;
    proof { if parse_all(Fixed { n: hsize(cs) }, IDX2 as nat, b3).is_none() { lemma_all_none(Fixed { n: hsize(cs) }, IDX2 as nat, SEQ2 as nat, b3); } }
//@hint loop 2 bottom
    proof { assert(views(elements@.subrange(0, IDX2 as int)) =~= views(out0@.subrange(0, IDX2 - 1)).push(elem@)); }
//@hint after loop 2
    proof { assert(elements@.subrange(0, elements@.len() as int) =~= elements@); }
//@end
//@go tree/prefix.PrefixProof.Marshal
pub fn px_PrefixProof_Marshal(x: px_PrefixProof, buf_r: &mut Buf) -> (r: Option<GoErr>) requires psr_nn(x.Results@) ensures writes(e_PrefixProof(), v_PrefixProof(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
    let ghost mut c1 = buf@;
//@hint before loop 1
    proof { lemma_one(x.Results@.len() as int); assert(vs_PSR(x.Results@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == x.Results, x.Results@.len() < 256, psr_nn(x.Results@), buf@ == old(buf_r)@ + (unbe(x.Results@.len() as int, 1) + enc_all(e_PSR(), vs_PSR(x.Results@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> e_PSR().fits(#[trigger] vs_PSR(x.Results@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_PSR(x.Results@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_PSR(x.Results@.subrange(0, IDX1 - 1))); assert(w.last() == vs_PSR(x.Results@)[IDX1 - 1]); assert(vs_PSR(x.Results@)[IDX1 - 1] == v_PSR(res)); }
//@hint after loop 1
    proof { c1 = buf@; assert(x.Results@.subrange(0, x.Results@.len() as int) =~= x.Results@); }
//@hint before loop 2
    proof { assert(views(x.Elements@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 2
    invariant SEQ == x.Elements, x.Elements@.len() < 65536, buf@ == c1 + (unbe(x.Elements@.len() as int, 2) + enc_all(e_bytes(), views(x.Elements@.subrange(0, IDX as int)))),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    proof { let w = views(x.Elements@.subrange(0, IDX2 as int)); assert(w.drop_last() =~= views(x.Elements@.subrange(0, IDX2 - 1))); assert(w.last() == elem@); }
//@hint after loop 2
    proof { assert(x.Elements@.subrange(0, x.Elements@.len() as int) =~= x.Elements@); }
//@end
pub type F_UpdateSuffix = Cond<Bytes>;
pub open spec fn f_UpdateSuffix(config: st_PublicConfig) -> F_UpdateSuffix { Cond { on: config.Config.Mode == 2u8, f: Bytes { n: 2 } } }
pub open spec fn e_UpdateSuffix() -> F_UpdateSuffix { f_UpdateSuffix(any_config()) }
pub open spec fn v_UpdateSuffix(x: st_UpdateSuffix) -> <F_UpdateSuffix as Fmt>::V { nilopt(x.Signature) }
pub open spec fn vs_UpdateSuffix(s: Seq<st_UpdateSuffix>) -> Seq<<F_UpdateSuffix as Fmt>::V> { Seq::new(s.len(), |i: int| v_UpdateSuffix(s[i])) }
pub proof fn like_UpdateSuffix(config: st_PublicConfig) ensures f_UpdateSuffix(config).like(e_UpdateSuffix()) {}
//@go tree/transparency/structs.NewUpdateSuffix
pub fn st_NewUpdateSuffix(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_UpdateSuffix, Option<GoErr>)) ensures reads(f_UpdateSuffix(config), old(buf_r)@, v_UpdateSuffix(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.UpdateSuffix.Marshal
pub fn st_UpdateSuffix_Marshal(x: st_UpdateSuffix, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_UpdateSuffix(), v_UpdateSuffix(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub uninterp spec fn any_req() -> st_SearchRequest;
pub type F_UpdateValue = (Bytes, F_UpdateSuffix);
pub open spec fn f_UpdateValue(config: st_PublicConfig) -> F_UpdateValue { (Bytes { n: 4 }, f_UpdateSuffix(config)) }
pub open spec fn e_UpdateValue() -> F_UpdateValue { f_UpdateValue(any_config()) }
pub open spec fn v_UpdateValue(x: st_UpdateValue) -> <F_UpdateValue as Fmt>::V { (x.Value@, v_UpdateSuffix(x.UpdateSuffix)) }
pub open spec fn vs_UpdateValue(s: Seq<st_UpdateValue>) -> Seq<<F_UpdateValue as Fmt>::V> { Seq::new(s.len(), |i: int| v_UpdateValue(s[i])) }
pub proof fn like_UpdateValue(config: st_PublicConfig) ensures f_UpdateValue(config).like(e_UpdateValue()) {}
//@go tree/transparency/structs.NewUpdateValue
pub fn st_NewUpdateValue(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_UpdateValue, Option<GoErr>)) ensures reads(f_UpdateValue(config), old(buf_r)@, v_UpdateValue(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.UpdateValue.Marshal
pub fn st_UpdateValue_Marshal(x: st_UpdateValue, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_UpdateValue(), v_UpdateValue(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_LogEntry = (UInt, Fixed);
pub open spec fn f_LogEntry(cs: Suite) -> F_LogEntry { (UInt { n: 8 }, Fixed { n: hsize(cs) }) }
pub open spec fn e_LogEntry() -> F_LogEntry { f_LogEntry(any_cs()) }
pub open spec fn v_LogEntry(x: st_LogEntry) -> <F_LogEntry as Fmt>::V { ((x.Timestamp as int), x.PrefixTree@) }
pub open spec fn vs_LogEntry(s: Seq<st_LogEntry>) -> Seq<<F_LogEntry as Fmt>::V> { Seq::new(s.len(), |i: int| v_LogEntry(s[i])) }
pub proof fn like_LogEntry(cs: Suite) ensures f_LogEntry(cs).like(e_LogEntry()) {}
//@go tree/transparency/structs.NewLogEntry
pub fn st_NewLogEntry(cs: Suite, buf_r: &mut Buf) -> (r: (st_LogEntry, Option<GoErr>)) ensures reads(f_LogEntry(cs), old(buf_r)@, v_LogEntry(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.LogEntry.Marshal
pub fn st_LogEntry_Marshal(x: st_LogEntry, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_LogEntry(), v_LogEntry(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_BinaryLadderStep = (Fixed, Opt<Fixed>);
pub open spec fn f_BinaryLadderStep(cs: Suite) -> F_BinaryLadderStep { (Fixed { n: vpsize(cs) }, Opt { f: Fixed { n: hsize(cs) } }) }
pub open spec fn e_BinaryLadderStep() -> F_BinaryLadderStep { f_BinaryLadderStep(any_cs()) }
pub open spec fn v_BinaryLadderStep(x: st_BinaryLadderStep) -> <F_BinaryLadderStep as Fmt>::V { (x.Proof@, nilopt(x.Commitment)) }
pub open spec fn vs_BinaryLadderStep(s: Seq<st_BinaryLadderStep>) -> Seq<<F_BinaryLadderStep as Fmt>::V> { Seq::new(s.len(), |i: int| v_BinaryLadderStep(s[i])) }
pub proof fn like_BinaryLadderStep(cs: Suite) ensures f_BinaryLadderStep(cs).like(e_BinaryLadderStep()) {}
//@go tree/transparency/structs.NewBinaryLadderStep
pub fn st_NewBinaryLadderStep(cs: Suite, buf_r: &mut Buf) -> (r: (st_BinaryLadderStep, Option<GoErr>)) ensures reads(f_BinaryLadderStep(cs), old(buf_r)@, v_BinaryLadderStep(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.BinaryLadderStep.Marshal
pub fn st_BinaryLadderStep_Marshal(x: st_BinaryLadderStep, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_BinaryLadderStep(), v_BinaryLadderStep(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_OpeningAndValue = (Fixed, F_UpdateValue);
pub open spec fn f_OpeningAndValue(config: st_PublicConfig) -> F_OpeningAndValue { (Fixed { n: opsize(config.Config.Suite) }, f_UpdateValue(config)) }
pub open spec fn e_OpeningAndValue() -> F_OpeningAndValue { f_OpeningAndValue(any_config()) }
pub open spec fn v_OpeningAndValue(x: st_OpeningAndValue) -> <F_OpeningAndValue as Fmt>::V { (x.Opening@, v_UpdateValue(x.Value)) }
pub open spec fn vs_OpeningAndValue(s: Seq<st_OpeningAndValue>) -> Seq<<F_OpeningAndValue as Fmt>::V> { Seq::new(s.len(), |i: int| v_OpeningAndValue(s[i])) }
pub proof fn like_OpeningAndValue(config: st_PublicConfig) ensures f_OpeningAndValue(config).like(e_OpeningAndValue()) {}
//@go tree/transparency/structs.NewOpeningAndValue
pub fn st_NewOpeningAndValue(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_OpeningAndValue, Option<GoErr>)) ensures reads(f_OpeningAndValue(config), old(buf_r)@, v_OpeningAndValue(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.OpeningAndValue.Marshal
pub fn st_OpeningAndValue_Marshal(x: st_OpeningAndValue, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_OpeningAndValue(), v_OpeningAndValue(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_UpdateInfo = (Fixed, F_UpdateSuffix);
pub open spec fn f_UpdateInfo(config: st_PublicConfig) -> F_UpdateInfo { (Fixed { n: opsize(config.Config.Suite) }, f_UpdateSuffix(config)) }
pub open spec fn e_UpdateInfo() -> F_UpdateInfo { f_UpdateInfo(any_config()) }
pub open spec fn v_UpdateInfo(x: st_UpdateInfo) -> <F_UpdateInfo as Fmt>::V { (x.Opening@, v_UpdateSuffix(x.UpdateSuffix)) }
pub open spec fn vs_UpdateInfo(s: Seq<st_UpdateInfo>) -> Seq<<F_UpdateInfo as Fmt>::V> { Seq::new(s.len(), |i: int| v_UpdateInfo(s[i])) }
pub proof fn like_UpdateInfo(config: st_PublicConfig) ensures f_UpdateInfo(config).like(e_UpdateInfo()) {}
//@go tree/transparency/structs.NewUpdateInfo
pub fn st_NewUpdateInfo(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_UpdateInfo, Option<GoErr>)) ensures reads(f_UpdateInfo(config), old(buf_r)@, v_UpdateInfo(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.UpdateInfo.Marshal
pub fn st_UpdateInfo_Marshal(x: st_UpdateInfo, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_UpdateInfo(), v_UpdateInfo(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_InclusionProof = List<Fixed>;
pub open spec fn f_InclusionProof(cs: Suite) -> F_InclusionProof { List { n: 2, f: Fixed { n: hsize(cs) } } }
pub open spec fn e_InclusionProof() -> F_InclusionProof { f_InclusionProof(any_cs()) }
pub open spec fn v_InclusionProof(x: st_InclusionProof) -> <F_InclusionProof as Fmt>::V { views(x.Elements@) }
pub open spec fn vs_InclusionProof(s: Seq<st_InclusionProof>) -> Seq<<F_InclusionProof as Fmt>::V> { Seq::new(s.len(), |i: int| v_InclusionProof(s[i])) }
pub proof fn like_InclusionProof(cs: Suite) ensures f_InclusionProof(cs).like(e_InclusionProof()) {}
//@go tree/transparency/structs.NewInclusionProof
pub fn st_NewInclusionProof(cs: Suite, buf_r: &mut Buf) -> (r: (st_InclusionProof, Option<GoErr>)) ensures reads(f_InclusionProof(cs), old(buf_r)@, v_InclusionProof(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.InclusionProof.Marshal
pub fn st_InclusionProof_Marshal(x: st_InclusionProof, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_InclusionProof(), v_InclusionProof(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readFuncSlice[u8,px_PrefixProof]#tree/prefix.NewPrefixProof
pub fn st_readFuncSlice_u8_PrefixProof(buf_r: &mut Buf, cs: Suite) -> (r: (Slice<px_PrefixProof>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_PrefixProof(cs) }, old(buf_r)@, vs_PrefixProof(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@ && pps_nn(r.0@)
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_PrefixProof(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_PrefixProof(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_PrefixProof(cs), IDX as nat, b1) == Some((vs_PrefixProof(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
        pps_nn(out@.subrange(0, IDX as int)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_PrefixProof(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_PrefixProof(cs), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_PrefixProof(out@.subrange(0, IDX1 as int)) =~= vs_PrefixProof(out0@.subrange(0, IDX1 - 1)).push(v_PrefixProof(elem))); }
    proof { assert(out@.subrange(0, IDX1 as int) =~= out0@.subrange(0, IDX1 - 1).push(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,px_PrefixProof,px_PrefixProof]
pub fn st_writeMarshalSlice_u8_PrefixProof(buf_r: &mut Buf, out: Slice<px_PrefixProof>, name: Str) -> (r: Option<GoErr>)
    requires pps_nn(out@) ensures writes(List { n: 1, f: e_PrefixProof() }, vs_PrefixProof(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_PrefixProof(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_PrefixProof(), vs_PrefixProof(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_PrefixProof()).fits(#[trigger] vs_PrefixProof(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_PrefixProof(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_PrefixProof(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_PrefixProof(out@)[IDX1 - 1]); assert(vs_PrefixProof(out@)[IDX1 - 1] == v_PrefixProof(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub open spec fn pps_nn(s: Seq<px_PrefixProof>) -> bool { forall|i: int| 0 <= i < s.len() ==> psr_nn((#[trigger] s[i]).Results@) }
pub type F_CombinedTreeProof = (List<UInt>, (List<F_PrefixProof>, (List<Fixed>, F_InclusionProof)));
pub open spec fn f_CombinedTreeProof(cs: Suite) -> F_CombinedTreeProof { (List { n: 1, f: UInt { n: 8 } }, (List { n: 1, f: f_PrefixProof(cs) }, (List { n: 1, f: Fixed { n: hsize(cs) } }, f_InclusionProof(cs)))) }
pub open spec fn e_CombinedTreeProof() -> F_CombinedTreeProof { f_CombinedTreeProof(any_cs()) }
pub open spec fn v_CombinedTreeProof(x: st_CombinedTreeProof) -> <F_CombinedTreeProof as Fmt>::V { (nums_u64(x.Timestamps@), (vs_PrefixProof(x.PrefixProofs@), (views(x.PrefixRoots@), v_InclusionProof(x.Inclusion)))) }
pub open spec fn vs_CombinedTreeProof(s: Seq<st_CombinedTreeProof>) -> Seq<<F_CombinedTreeProof as Fmt>::V> { Seq::new(s.len(), |i: int| v_CombinedTreeProof(s[i])) }
pub proof fn like_CombinedTreeProof(cs: Suite) ensures f_CombinedTreeProof(cs).like(e_CombinedTreeProof()) {}
//@go tree/transparency/structs.NewCombinedTreeProof
pub fn st_NewCombinedTreeProof(cs: Suite, buf_r: &mut Buf) -> (r: (st_CombinedTreeProof, Option<GoErr>)) ensures reads(f_CombinedTreeProof(cs), old(buf_r)@, v_CombinedTreeProof(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> pps_nn(r.0.PrefixProofs@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.CombinedTreeProof.Marshal
pub fn st_CombinedTreeProof_Marshal(x: st_CombinedTreeProof, buf_r: &mut Buf) -> (r: Option<GoErr>) requires pps_nn(x.PrefixProofs@) ensures writes(e_CombinedTreeProof(), v_CombinedTreeProof(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_FullTreeHead = Tag2<(F_TreeHead, Cond<F_AuditorTreeHead>)>;
pub open spec fn f_FullTreeHead(config: st_PublicConfig) -> F_FullTreeHead { Tag2 { a: 1, c: 2, f: (f_TreeHead(), Cond { on: config.Config.Mode == 3u8, f: f_AuditorTreeHead() }) } }
pub open spec fn e_FullTreeHead() -> F_FullTreeHead { f_FullTreeHead(any_config()) }
pub open spec fn v_FullTreeHead(x: st_FullTreeHead) -> <F_FullTreeHead as Fmt>::V { match x.TreeHead { None => None, Some(th) => Some((v_TreeHead(th), match x.AuditorTreeHead { Some(y) => Some(v_AuditorTreeHead(y)), None => None })) } }
pub proof fn like_FullTreeHead(config: st_PublicConfig) ensures f_FullTreeHead(config).like(e_FullTreeHead()) {}
//@go tree/transparency/structs.NewFullTreeHead
pub fn st_NewFullTreeHead(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_FullTreeHead, Option<GoErr>)) ensures reads(f_FullTreeHead(config), old(buf_r)@, v_FullTreeHead(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.FullTreeHead.Marshal
pub fn st_FullTreeHead_Marshal(x: st_FullTreeHead, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_FullTreeHead(), v_FullTreeHead(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_SearchRequest = (Opt<UInt>, (Bytes, Opt<UInt>));
pub open spec fn f_SearchRequest() -> F_SearchRequest { (Opt { f: UInt { n: 8 } }, (Bytes { n: 1 }, Opt { f: UInt { n: 4 } })) }
pub open spec fn e_SearchRequest() -> F_SearchRequest { f_SearchRequest() }
pub open spec fn v_SearchRequest(x: st_SearchRequest) -> <F_SearchRequest as Fmt>::V { (ov_u64(x.Last), (x.Label@, ov_u32(x.Version))) }
pub open spec fn vs_SearchRequest(s: Seq<st_SearchRequest>) -> Seq<<F_SearchRequest as Fmt>::V> { Seq::new(s.len(), |i: int| v_SearchRequest(s[i])) }
//@go tree/transparency/structs.NewSearchRequest
pub fn st_NewSearchRequest(buf_r: &mut Buf) -> (r: (st_SearchRequest, Option<GoErr>)) ensures reads(f_SearchRequest(), old(buf_r)@, v_SearchRequest(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.SearchRequest.Marshal
pub fn st_SearchRequest_Marshal(x: st_SearchRequest, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_SearchRequest(), v_SearchRequest(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readFuncSlice[u8,st_BinaryLadderStep]#tree/transparency/structs.NewBinaryLadderStep
pub fn st_readFuncSlice_u8_BinaryLadderStep(buf_r: &mut Buf, cs: Suite) -> (r: (Slice<st_BinaryLadderStep>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_BinaryLadderStep(cs) }, old(buf_r)@, vs_BinaryLadderStep(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_BinaryLadderStep(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_BinaryLadderStep(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_BinaryLadderStep(cs), IDX as nat, b1) == Some((vs_BinaryLadderStep(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_BinaryLadderStep(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_BinaryLadderStep(cs), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_BinaryLadderStep(out@.subrange(0, IDX1 as int)) =~= vs_BinaryLadderStep(out0@.subrange(0, IDX1 - 1)).push(v_BinaryLadderStep(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,st_BinaryLadderStep,st_BinaryLadderStep]
pub fn st_writeMarshalSlice_u8_BinaryLadderStep(buf_r: &mut Buf, out: Slice<st_BinaryLadderStep>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_BinaryLadderStep() }, vs_BinaryLadderStep(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_BinaryLadderStep(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_BinaryLadderStep(), vs_BinaryLadderStep(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_BinaryLadderStep()).fits(#[trigger] vs_BinaryLadderStep(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_BinaryLadderStep(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_BinaryLadderStep(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_BinaryLadderStep(out@)[IDX1 - 1]); assert(vs_BinaryLadderStep(out@)[IDX1 - 1] == v_BinaryLadderStep(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readFuncSlice[u16,st_BinaryLadderStep]#tree/transparency/structs.NewBinaryLadderStep
pub fn st_readFuncSlice_u16_BinaryLadderStep(buf_r: &mut Buf, cs: Suite) -> (r: (Slice<st_BinaryLadderStep>, Option<GoErr>))
    ensures reads(List { n: 2, f: f_BinaryLadderStep(cs) }, old(buf_r)@, vs_BinaryLadderStep(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u16 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_BinaryLadderStep(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_BinaryLadderStep(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_BinaryLadderStep(cs), IDX as nat, b1) == Some((vs_BinaryLadderStep(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 2 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_BinaryLadderStep(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_BinaryLadderStep(cs), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_BinaryLadderStep(out@.subrange(0, IDX1 as int)) =~= vs_BinaryLadderStep(out0@.subrange(0, IDX1 - 1)).push(v_BinaryLadderStep(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u16,st_BinaryLadderStep,st_BinaryLadderStep]
pub fn st_writeMarshalSlice_u16_BinaryLadderStep(buf_r: &mut Buf, out: Slice<st_BinaryLadderStep>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 2, f: e_BinaryLadderStep() }, vs_BinaryLadderStep(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_BinaryLadderStep(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(2), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 2) + enc_all(e_BinaryLadderStep(), vs_BinaryLadderStep(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_BinaryLadderStep()).fits(#[trigger] vs_BinaryLadderStep(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_BinaryLadderStep(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_BinaryLadderStep(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_BinaryLadderStep(out@)[IDX1 - 1]); assert(vs_BinaryLadderStep(out@)[IDX1 - 1] == v_BinaryLadderStep(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_SearchResponse = (F_FullTreeHead, (Cond<UInt>, (Fixed, (F_UpdateValue, (List<F_BinaryLadderStep>, F_CombinedTreeProof)))));
pub open spec fn f_SearchResponse(config: st_PublicConfig, req: st_SearchRequest) -> F_SearchResponse { (f_FullTreeHead(config), (Cond { on: req.Version.is_none(), f: UInt { n: 4 } }, (Fixed { n: opsize(config.Config.Suite) }, (f_UpdateValue(config), (List { n: 1, f: f_BinaryLadderStep(config.Config.Suite) }, f_CombinedTreeProof(config.Config.Suite)))))) }
pub open spec fn e_SearchResponse() -> F_SearchResponse { f_SearchResponse(any_config(), any_req()) }
pub open spec fn v_SearchResponse(x: st_SearchResponse) -> <F_SearchResponse as Fmt>::V { (v_FullTreeHead(x.FullTreeHead), (ov_u32(x.Version), (x.Opening@, (v_UpdateValue(x.Value), (vs_BinaryLadderStep(x.BinaryLadder@), v_CombinedTreeProof(x.Search)))))) }
pub open spec fn vs_SearchResponse(s: Seq<st_SearchResponse>) -> Seq<<F_SearchResponse as Fmt>::V> { Seq::new(s.len(), |i: int| v_SearchResponse(s[i])) }
pub proof fn like_SearchResponse(config: st_PublicConfig, req: st_SearchRequest) ensures f_SearchResponse(config, req).like(e_SearchResponse()) {}
//@go tree/transparency/structs.NewSearchResponse
pub fn st_NewSearchResponse(config: st_PublicConfig, req: st_SearchRequest, buf_r: &mut Buf) -> (r: (st_SearchResponse, Option<GoErr>)) ensures reads(f_SearchResponse(config, req), old(buf_r)@, v_SearchResponse(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> pps_nn(r.0.Search.PrefixProofs@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.SearchResponse.Marshal
pub fn st_SearchResponse_Marshal(x: st_SearchResponse, buf_r: &mut Buf) -> (r: Option<GoErr>) requires pps_nn(x.Search.PrefixProofs@) ensures writes(e_SearchResponse(), v_SearchResponse(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
    let ghost mut c1 = buf@;
    let ghost mut c2 = buf@;
    let ghost mut c3 = buf@;
    let ghost mut c4 = buf@;
    let ghost mut c5 = buf@;
    let ghost e = e_SearchResponse();
    let ghost v = v_SearchResponse(x);
//@hint after call st_FullTreeHead_Marshal 1
    proof { c1 = buf@; }
//@hint before call buf_Write 1
    proof { c2 = buf@; }
//@hint after call buf_Write 1
    proof { c3 = buf@; }
//@hint after call st_UpdateValue_Marshal 1
    proof { c4 = buf@; }
//@hint after call st_writeMarshalSlice_u8_BinaryLadderStep 1
    proof { c5 = buf@; }
//@hint after call st_CombinedTreeProof_Marshal 1
    proof { assert(c1 + Seq::<u8>::empty() =~= c1); lemma_cat(e.1.1.1.1.0, e.1.1.1.1.1, v.1.1.1.1.0, v.1.1.1.1.1, c4, c5, buf@, RES.is_some()); lemma_cat(e.1.1.1.0, e.1.1.1.1, v.1.1.1.0, v.1.1.1.1, c3, c4, buf@, RES.is_some()); lemma_cat(e.1.1.0, e.1.1.1, v.1.1.0, v.1.1.1, c2, c3, buf@, RES.is_some()); lemma_cat(e.1.0, e.1.1, v.1.0, v.1.1, c1, c2, buf@, RES.is_some()); lemma_cat(e.0, e.1, v.0, v.1, old(buf_r)@, c1, buf@, RES.is_some()); }
//@end
//@go tree/transparency/structs.readFuncSlice[u8,st_MonitorMapEntry]#tree/transparency/structs.NewMonitorMapEntry
pub fn st_readFuncSlice_u8_MonitorMapEntry(buf_r: &mut Buf) -> (r: (Slice<st_MonitorMapEntry>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_MonitorMapEntry() }, old(buf_r)@, vs_MonitorMapEntry(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_MonitorMapEntry(), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_MonitorMapEntry(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_MonitorMapEntry(), IDX as nat, b1) == Some((vs_MonitorMapEntry(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_MonitorMapEntry(), IDX1 as nat, b1).is_none() { lemma_all_none(f_MonitorMapEntry(), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_MonitorMapEntry(out@.subrange(0, IDX1 as int)) =~= vs_MonitorMapEntry(out0@.subrange(0, IDX1 - 1)).push(v_MonitorMapEntry(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,st_MonitorMapEntry,st_MonitorMapEntry]
pub fn st_writeMarshalSlice_u8_MonitorMapEntry(buf_r: &mut Buf, out: Slice<st_MonitorMapEntry>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_MonitorMapEntry() }, vs_MonitorMapEntry(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_MonitorMapEntry(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_MonitorMapEntry(), vs_MonitorMapEntry(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_MonitorMapEntry()).fits(#[trigger] vs_MonitorMapEntry(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_MonitorMapEntry(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_MonitorMapEntry(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_MonitorMapEntry(out@)[IDX1 - 1]); assert(vs_MonitorMapEntry(out@)[IDX1 - 1] == v_MonitorMapEntry(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_ContactMonitorRequest = (Opt<UInt>, (Bytes, List<F_MonitorMapEntry>));
pub open spec fn f_ContactMonitorRequest() -> F_ContactMonitorRequest { (Opt { f: UInt { n: 8 } }, (Bytes { n: 1 }, List { n: 1, f: f_MonitorMapEntry() })) }
pub open spec fn e_ContactMonitorRequest() -> F_ContactMonitorRequest { f_ContactMonitorRequest() }
pub open spec fn v_ContactMonitorRequest(x: st_ContactMonitorRequest) -> <F_ContactMonitorRequest as Fmt>::V { (ov_u64(x.Last), (x.Label@, vs_MonitorMapEntry(x.Entries@))) }
pub open spec fn vs_ContactMonitorRequest(s: Seq<st_ContactMonitorRequest>) -> Seq<<F_ContactMonitorRequest as Fmt>::V> { Seq::new(s.len(), |i: int| v_ContactMonitorRequest(s[i])) }
//@go tree/transparency/structs.NewContactMonitorRequest
pub fn st_NewContactMonitorRequest(buf_r: &mut Buf) -> (r: (st_ContactMonitorRequest, Option<GoErr>)) ensures reads(f_ContactMonitorRequest(), old(buf_r)@, v_ContactMonitorRequest(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.ContactMonitorRequest.Marshal
pub fn st_ContactMonitorRequest_Marshal(x: st_ContactMonitorRequest, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_ContactMonitorRequest(), v_ContactMonitorRequest(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_ContactMonitorResponse = (F_FullTreeHead, F_CombinedTreeProof);
pub open spec fn f_ContactMonitorResponse(config: st_PublicConfig) -> F_ContactMonitorResponse { (f_FullTreeHead(config), f_CombinedTreeProof(config.Config.Suite)) }
pub open spec fn e_ContactMonitorResponse() -> F_ContactMonitorResponse { f_ContactMonitorResponse(any_config()) }
pub open spec fn v_ContactMonitorResponse(x: st_ContactMonitorResponse) -> <F_ContactMonitorResponse as Fmt>::V { (v_FullTreeHead(x.FullTreeHead), v_CombinedTreeProof(x.Monitor)) }
pub open spec fn vs_ContactMonitorResponse(s: Seq<st_ContactMonitorResponse>) -> Seq<<F_ContactMonitorResponse as Fmt>::V> { Seq::new(s.len(), |i: int| v_ContactMonitorResponse(s[i])) }
pub proof fn like_ContactMonitorResponse(config: st_PublicConfig) ensures f_ContactMonitorResponse(config).like(e_ContactMonitorResponse()) {}
//@go tree/transparency/structs.NewContactMonitorResponse
pub fn st_NewContactMonitorResponse(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_ContactMonitorResponse, Option<GoErr>)) ensures reads(f_ContactMonitorResponse(config), old(buf_r)@, v_ContactMonitorResponse(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> pps_nn(r.0.Monitor.PrefixProofs@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.ContactMonitorResponse.Marshal
pub fn st_ContactMonitorResponse_Marshal(x: st_ContactMonitorResponse, buf_r: &mut Buf) -> (r: Option<GoErr>) requires pps_nn(x.Monitor.PrefixProofs@) ensures writes(e_ContactMonitorResponse(), v_ContactMonitorResponse(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_OwnerInitRequest = (Opt<UInt>, (Bytes, UInt));
pub open spec fn f_OwnerInitRequest() -> F_OwnerInitRequest { (Opt { f: UInt { n: 8 } }, (Bytes { n: 1 }, UInt { n: 8 })) }
pub open spec fn e_OwnerInitRequest() -> F_OwnerInitRequest { f_OwnerInitRequest() }
pub open spec fn v_OwnerInitRequest(x: st_OwnerInitRequest) -> <F_OwnerInitRequest as Fmt>::V { (ov_u64(x.Last), (x.Label@, (x.Start as int))) }
pub open spec fn vs_OwnerInitRequest(s: Seq<st_OwnerInitRequest>) -> Seq<<F_OwnerInitRequest as Fmt>::V> { Seq::new(s.len(), |i: int| v_OwnerInitRequest(s[i])) }
//@go tree/transparency/structs.NewOwnerInitRequest
pub fn st_NewOwnerInitRequest(buf_r: &mut Buf) -> (r: (st_OwnerInitRequest, Option<GoErr>)) ensures reads(f_OwnerInitRequest(), old(buf_r)@, v_OwnerInitRequest(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.OwnerInitRequest.Marshal
pub fn st_OwnerInitRequest_Marshal(x: st_OwnerInitRequest, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_OwnerInitRequest(), v_OwnerInitRequest(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_OwnerInitResponse = (F_FullTreeHead, (List<UInt>, (List<F_BinaryLadderStep>, F_CombinedTreeProof)));
pub open spec fn f_OwnerInitResponse(config: st_PublicConfig) -> F_OwnerInitResponse { (f_FullTreeHead(config), (List { n: 1, f: UInt { n: 4 } }, (List { n: 2, f: f_BinaryLadderStep(config.Config.Suite) }, f_CombinedTreeProof(config.Config.Suite)))) }
pub open spec fn e_OwnerInitResponse() -> F_OwnerInitResponse { f_OwnerInitResponse(any_config()) }
pub open spec fn v_OwnerInitResponse(x: st_OwnerInitResponse) -> <F_OwnerInitResponse as Fmt>::V { (v_FullTreeHead(x.FullTreeHead), (nums_u32(x.GreatestVersions@), (vs_BinaryLadderStep(x.BinaryLadder@), v_CombinedTreeProof(x.Init)))) }
pub open spec fn vs_OwnerInitResponse(s: Seq<st_OwnerInitResponse>) -> Seq<<F_OwnerInitResponse as Fmt>::V> { Seq::new(s.len(), |i: int| v_OwnerInitResponse(s[i])) }
pub proof fn like_OwnerInitResponse(config: st_PublicConfig) ensures f_OwnerInitResponse(config).like(e_OwnerInitResponse()) {}
//@go tree/transparency/structs.NewOwnerInitResponse
pub fn st_NewOwnerInitResponse(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_OwnerInitResponse, Option<GoErr>)) ensures reads(f_OwnerInitResponse(config), old(buf_r)@, v_OwnerInitResponse(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> pps_nn(r.0.Init.PrefixProofs@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.OwnerInitResponse.Marshal
pub fn st_OwnerInitResponse_Marshal(x: st_OwnerInitResponse, buf_r: &mut Buf) -> (r: Option<GoErr>) requires pps_nn(x.Init.PrefixProofs@) ensures writes(e_OwnerInitResponse(), v_OwnerInitResponse(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_OwnerMonitorRequest = (Opt<UInt>, (Bytes, (List<F_MonitorMapEntry>, (UInt, Opt<UInt>))));
pub open spec fn f_OwnerMonitorRequest() -> F_OwnerMonitorRequest { (Opt { f: UInt { n: 8 } }, (Bytes { n: 1 }, (List { n: 1, f: f_MonitorMapEntry() }, (UInt { n: 8 }, Opt { f: UInt { n: 4 } })))) }
pub open spec fn e_OwnerMonitorRequest() -> F_OwnerMonitorRequest { f_OwnerMonitorRequest() }
pub open spec fn v_OwnerMonitorRequest(x: st_OwnerMonitorRequest) -> <F_OwnerMonitorRequest as Fmt>::V { (ov_u64(x.Last), (x.Label@, (vs_MonitorMapEntry(x.Entries@), ((x.Start as int), ov_u32(x.GreatestVersion))))) }
pub open spec fn vs_OwnerMonitorRequest(s: Seq<st_OwnerMonitorRequest>) -> Seq<<F_OwnerMonitorRequest as Fmt>::V> { Seq::new(s.len(), |i: int| v_OwnerMonitorRequest(s[i])) }
//@go tree/transparency/structs.NewOwnerMonitorRequest
pub fn st_NewOwnerMonitorRequest(buf_r: &mut Buf) -> (r: (st_OwnerMonitorRequest, Option<GoErr>)) ensures reads(f_OwnerMonitorRequest(), old(buf_r)@, v_OwnerMonitorRequest(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.OwnerMonitorRequest.Marshal
pub fn st_OwnerMonitorRequest_Marshal(x: st_OwnerMonitorRequest, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_OwnerMonitorRequest(), v_OwnerMonitorRequest(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_OwnerMonitorResponse = (F_FullTreeHead, F_CombinedTreeProof);
pub open spec fn f_OwnerMonitorResponse(config: st_PublicConfig) -> F_OwnerMonitorResponse { (f_FullTreeHead(config), f_CombinedTreeProof(config.Config.Suite)) }
pub open spec fn e_OwnerMonitorResponse() -> F_OwnerMonitorResponse { f_OwnerMonitorResponse(any_config()) }
pub open spec fn v_OwnerMonitorResponse(x: st_OwnerMonitorResponse) -> <F_OwnerMonitorResponse as Fmt>::V { (v_FullTreeHead(x.FullTreeHead), v_CombinedTreeProof(x.Monitor)) }
pub open spec fn vs_OwnerMonitorResponse(s: Seq<st_OwnerMonitorResponse>) -> Seq<<F_OwnerMonitorResponse as Fmt>::V> { Seq::new(s.len(), |i: int| v_OwnerMonitorResponse(s[i])) }
pub proof fn like_OwnerMonitorResponse(config: st_PublicConfig) ensures f_OwnerMonitorResponse(config).like(e_OwnerMonitorResponse()) {}
//@go tree/transparency/structs.NewOwnerMonitorResponse
pub fn st_NewOwnerMonitorResponse(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_OwnerMonitorResponse, Option<GoErr>)) ensures reads(f_OwnerMonitorResponse(config), old(buf_r)@, v_OwnerMonitorResponse(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> pps_nn(r.0.Monitor.PrefixProofs@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.OwnerMonitorResponse.Marshal
pub fn st_OwnerMonitorResponse_Marshal(x: st_OwnerMonitorResponse, buf_r: &mut Buf) -> (r: Option<GoErr>) requires pps_nn(x.Monitor.PrefixProofs@) ensures writes(e_OwnerMonitorResponse(), v_OwnerMonitorResponse(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_UpdateRequest = (Opt<UInt>, (Bytes, (Opt<UInt>, List<F_LabelValue>)));
pub open spec fn f_UpdateRequest() -> F_UpdateRequest { (Opt { f: UInt { n: 8 } }, (Bytes { n: 1 }, (Opt { f: UInt { n: 4 } }, List { n: 1, f: f_LabelValue() }))) }
pub open spec fn e_UpdateRequest() -> F_UpdateRequest { f_UpdateRequest() }
pub open spec fn v_UpdateRequest(x: st_UpdateRequest) -> <F_UpdateRequest as Fmt>::V { (ov_u64(x.Last), (x.Label@, (ov_u32(x.GreatestVersion), vs_LabelValue(x.Values@)))) }
pub open spec fn vs_UpdateRequest(s: Seq<st_UpdateRequest>) -> Seq<<F_UpdateRequest as Fmt>::V> { Seq::new(s.len(), |i: int| v_UpdateRequest(s[i])) }
//@go tree/transparency/structs.NewUpdateRequest
pub fn st_NewUpdateRequest(buf_r: &mut Buf) -> (r: (st_UpdateRequest, Option<GoErr>)) ensures reads(f_UpdateRequest(), old(buf_r)@, v_UpdateRequest(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.UpdateRequest.Marshal
pub fn st_UpdateRequest_Marshal(x: st_UpdateRequest, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_UpdateRequest(), v_UpdateRequest(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readFuncSlice[u8,st_UpdateValue]#tree/transparency/structs.NewUpdateValue
pub fn st_readFuncSlice_u8_UpdateValue(buf_r: &mut Buf, config: st_PublicConfig) -> (r: (Slice<st_UpdateValue>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_UpdateValue(config) }, old(buf_r)@, vs_UpdateValue(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_UpdateValue(config), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_UpdateValue(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_UpdateValue(config), IDX as nat, b1) == Some((vs_UpdateValue(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_UpdateValue(config), IDX1 as nat, b1).is_none() { lemma_all_none(f_UpdateValue(config), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_UpdateValue(out@.subrange(0, IDX1 as int)) =~= vs_UpdateValue(out0@.subrange(0, IDX1 - 1)).push(v_UpdateValue(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,st_UpdateValue,st_UpdateValue]
pub fn st_writeMarshalSlice_u8_UpdateValue(buf_r: &mut Buf, out: Slice<st_UpdateValue>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_UpdateValue() }, vs_UpdateValue(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_UpdateValue(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_UpdateValue(), vs_UpdateValue(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_UpdateValue()).fits(#[trigger] vs_UpdateValue(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_UpdateValue(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_UpdateValue(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_UpdateValue(out@)[IDX1 - 1]); assert(vs_UpdateValue(out@)[IDX1 - 1] == v_UpdateValue(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readFuncSlice[u8,st_UpdateInfo]#tree/transparency/structs.NewUpdateInfo
pub fn st_readFuncSlice_u8_UpdateInfo(buf_r: &mut Buf, config: st_PublicConfig) -> (r: (Slice<st_UpdateInfo>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_UpdateInfo(config) }, old(buf_r)@, vs_UpdateInfo(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_UpdateInfo(config), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_UpdateInfo(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_UpdateInfo(config), IDX as nat, b1) == Some((vs_UpdateInfo(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_UpdateInfo(config), IDX1 as nat, b1).is_none() { lemma_all_none(f_UpdateInfo(config), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_UpdateInfo(out@.subrange(0, IDX1 as int)) =~= vs_UpdateInfo(out0@.subrange(0, IDX1 - 1)).push(v_UpdateInfo(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,st_UpdateInfo,st_UpdateInfo]
pub fn st_writeMarshalSlice_u8_UpdateInfo(buf_r: &mut Buf, out: Slice<st_UpdateInfo>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_UpdateInfo() }, vs_UpdateInfo(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_UpdateInfo(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_UpdateInfo(), vs_UpdateInfo(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_UpdateInfo()).fits(#[trigger] vs_UpdateInfo(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_UpdateInfo(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_UpdateInfo(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_UpdateInfo(out@)[IDX1 - 1]); assert(vs_UpdateInfo(out@)[IDX1 - 1] == v_UpdateInfo(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_ManagerUpdateRequest = (Opt<UInt>, (Bytes, (Opt<UInt>, (UInt, List<F_UpdateValue>))));
pub open spec fn f_ManagerUpdateRequest(config: st_PublicConfig) -> F_ManagerUpdateRequest { (Opt { f: UInt { n: 8 } }, (Bytes { n: 1 }, (Opt { f: UInt { n: 4 } }, (UInt { n: 4 }, List { n: 1, f: f_UpdateValue(config) })))) }
pub open spec fn e_ManagerUpdateRequest() -> F_ManagerUpdateRequest { f_ManagerUpdateRequest(any_config()) }
pub open spec fn v_ManagerUpdateRequest(x: st_ManagerUpdateRequest) -> <F_ManagerUpdateRequest as Fmt>::V { (ov_u64(x.Last), (x.Label@, (ov_u32(x.GreatestVersion), ((x.SignedVersion as int), vs_UpdateValue(x.Values@))))) }
pub open spec fn vs_ManagerUpdateRequest(s: Seq<st_ManagerUpdateRequest>) -> Seq<<F_ManagerUpdateRequest as Fmt>::V> { Seq::new(s.len(), |i: int| v_ManagerUpdateRequest(s[i])) }
pub proof fn like_ManagerUpdateRequest(config: st_PublicConfig) ensures f_ManagerUpdateRequest(config).like(e_ManagerUpdateRequest()) {}
//@go tree/transparency/structs.NewManagerUpdateRequest
pub fn st_NewManagerUpdateRequest(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_ManagerUpdateRequest, Option<GoErr>)) ensures reads(f_ManagerUpdateRequest(config), old(buf_r)@, v_ManagerUpdateRequest(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.ManagerUpdateRequest.Marshal
pub fn st_ManagerUpdateRequest_Marshal(x: st_ManagerUpdateRequest, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_ManagerUpdateRequest(), v_ManagerUpdateRequest(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_UpdateResponse = (F_FullTreeHead, (UInt, (List<F_LabelValue>, (List<F_UpdateInfo>, (List<F_BinaryLadderStep>, F_CombinedTreeProof)))));
pub open spec fn f_UpdateResponse(config: st_PublicConfig) -> F_UpdateResponse { (f_FullTreeHead(config), (UInt { n: 8 }, (List { n: 1, f: f_LabelValue() }, (List { n: 1, f: f_UpdateInfo(config) }, (List { n: 1, f: f_BinaryLadderStep(config.Config.Suite) }, f_CombinedTreeProof(config.Config.Suite)))))) }
pub open spec fn e_UpdateResponse() -> F_UpdateResponse { f_UpdateResponse(any_config()) }
pub open spec fn v_UpdateResponse(x: st_UpdateResponse) -> <F_UpdateResponse as Fmt>::V { (v_FullTreeHead(x.FullTreeHead), ((x.Position as int), (vs_LabelValue(x.Values@), (vs_UpdateInfo(x.Info@), (vs_BinaryLadderStep(x.BinaryLadder@), v_CombinedTreeProof(x.Update)))))) }
pub open spec fn vs_UpdateResponse(s: Seq<st_UpdateResponse>) -> Seq<<F_UpdateResponse as Fmt>::V> { Seq::new(s.len(), |i: int| v_UpdateResponse(s[i])) }
pub proof fn like_UpdateResponse(config: st_PublicConfig) ensures f_UpdateResponse(config).like(e_UpdateResponse()) {}
//@go tree/transparency/structs.NewUpdateResponse
pub fn st_NewUpdateResponse(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_UpdateResponse, Option<GoErr>)) ensures reads(f_UpdateResponse(config), old(buf_r)@, v_UpdateResponse(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> pps_nn(r.0.Update.PrefixProofs@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.UpdateResponse.Marshal
pub fn st_UpdateResponse_Marshal(x: st_UpdateResponse, buf_r: &mut Buf) -> (r: Option<GoErr>) requires pps_nn(x.Update.PrefixProofs@) ensures writes(e_UpdateResponse(), v_UpdateResponse(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
    let ghost mut c1 = buf@;
    let ghost mut c2 = buf@;
    let ghost mut c3 = buf@;
    let ghost mut c4 = buf@;
    let ghost mut c5 = buf@;
    let ghost e = e_UpdateResponse();
    let ghost v = v_UpdateResponse(x);
//@hint after call st_FullTreeHead_Marshal 1
    proof { c1 = buf@; }
//@hint after call st_writeNumeric_u64 1
    proof { c2 = buf@; }
//@hint after call st_writeMarshalSlice_u8_LabelValue 1
    proof { c3 = buf@; }
//@hint after call st_writeMarshalSlice_u8_UpdateInfo 1
    proof { c4 = buf@; }
//@hint after call st_writeMarshalSlice_u8_BinaryLadderStep 1
    proof { c5 = buf@; }
//@hint after call st_CombinedTreeProof_Marshal 1
    proof { lemma_cat(e.1.1.1.1.0, e.1.1.1.1.1, v.1.1.1.1.0, v.1.1.1.1.1, c4, c5, buf@, RES.is_some()); lemma_cat(e.1.1.1.0, e.1.1.1.1, v.1.1.1.0, v.1.1.1.1, c3, c4, buf@, RES.is_some()); lemma_cat(e.1.1.0, e.1.1.1, v.1.1.0, v.1.1.1, c2, c3, buf@, RES.is_some()); lemma_cat(e.1.0, e.1.1, v.1.0, v.1.1, c1, c2, buf@, RES.is_some()); lemma_cat(e.0, e.1, v.0, v.1, old(buf_r)@, c1, buf@, RES.is_some()); }
//@end
pub type F_CommitmentValue = (Bytes, (UInt, F_UpdateValue));
pub open spec fn f_CommitmentValue(config: st_PublicConfig) -> F_CommitmentValue { (Bytes { n: 1 }, (UInt { n: 4 }, f_UpdateValue(config))) }
pub open spec fn e_CommitmentValue() -> F_CommitmentValue { f_CommitmentValue(any_config()) }
pub open spec fn v_CommitmentValue(x: st_CommitmentValue) -> <F_CommitmentValue as Fmt>::V { (x.Label@, ((x.Version as int), v_UpdateValue(x.Update))) }
pub open spec fn vs_CommitmentValue(s: Seq<st_CommitmentValue>) -> Seq<<F_CommitmentValue as Fmt>::V> { Seq::new(s.len(), |i: int| v_CommitmentValue(s[i])) }
pub proof fn like_CommitmentValue(config: st_PublicConfig) ensures f_CommitmentValue(config).like(e_CommitmentValue()) {}
//@go tree/transparency/structs.CommitmentValue.Marshal
pub fn st_CommitmentValue_Marshal(x: st_CommitmentValue, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_CommitmentValue(), v_CommitmentValue(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_VrfInput = (Bytes, UInt);
pub open spec fn f_VrfInput() -> F_VrfInput { (Bytes { n: 1 }, UInt { n: 4 }) }
pub open spec fn e_VrfInput() -> F_VrfInput { f_VrfInput() }
pub open spec fn v_VrfInput(x: st_VrfInput) -> <F_VrfInput as Fmt>::V { (x.Label@, (x.Version as int)) }
pub open spec fn vs_VrfInput(s: Seq<st_VrfInput>) -> Seq<<F_VrfInput as Fmt>::V> { Seq::new(s.len(), |i: int| v_VrfInput(s[i])) }
//@go tree/transparency/structs.VrfInput.Marshal
pub fn st_VrfInput_Marshal(x: st_VrfInput, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_VrfInput(), v_VrfInput(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_PrefixEntry = (Fixed, Fixed);
pub open spec fn f_PrefixEntry(cs: Suite) -> F_PrefixEntry { (Fixed { n: hsize(cs) }, Fixed { n: hsize(cs) }) }
pub open spec fn e_PrefixEntry() -> F_PrefixEntry { f_PrefixEntry(any_cs()) }
pub open spec fn v_PrefixEntry(x: px_Entry) -> <F_PrefixEntry as Fmt>::V { (x.VrfOutput@, x.Commitment@) }
pub open spec fn vs_PrefixEntry(s: Seq<px_Entry>) -> Seq<<F_PrefixEntry as Fmt>::V> { Seq::new(s.len(), |i: int| v_PrefixEntry(s[i])) }
pub proof fn like_PrefixEntry(cs: Suite) ensures f_PrefixEntry(cs).like(e_PrefixEntry()) {}
//@go tree/transparency/structs.newPrefixEntry
pub fn st_newPrefixEntry(cs: Suite, buf_r: &mut Buf) -> (r: (px_Entry, Option<GoErr>)) ensures reads(f_PrefixEntry(cs), old(buf_r)@, v_PrefixEntry(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.marshalPrefixEntry
pub fn st_marshalPrefixEntry(x: px_Entry, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_PrefixEntry(), v_PrefixEntry(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readFuncSlice[u16,px_Entry]#tree/transparency/structs.newPrefixEntry
pub fn st_readFuncSlice_u16_PrefixEntry(buf_r: &mut Buf, cs: Suite) -> (r: (Slice<px_Entry>, Option<GoErr>))
    ensures reads(List { n: 2, f: f_PrefixEntry(cs) }, old(buf_r)@, vs_PrefixEntry(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u16 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_PrefixEntry(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_PrefixEntry(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_PrefixEntry(cs), IDX as nat, b1) == Some((vs_PrefixEntry(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 2 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_PrefixEntry(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_PrefixEntry(cs), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_PrefixEntry(out@.subrange(0, IDX1 as int)) =~= vs_PrefixEntry(out0@.subrange(0, IDX1 - 1)).push(v_PrefixEntry(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeFuncSlice[u16,px_Entry]#tree/transparency/structs.marshalPrefixEntry
pub fn st_writeFuncSlice_u16_PrefixEntry(buf_r: &mut Buf, out: Slice<px_Entry>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 2, f: e_PrefixEntry() }, vs_PrefixEntry(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_PrefixEntry(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(2), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 2) + enc_all(e_PrefixEntry(), vs_PrefixEntry(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_PrefixEntry()).fits(#[trigger] vs_PrefixEntry(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_PrefixEntry(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_PrefixEntry(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_PrefixEntry(out@)[IDX1 - 1]); assert(vs_PrefixEntry(out@)[IDX1 - 1] == v_PrefixEntry(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_AuditorUpdate = (UInt, (List<F_PrefixEntry>, (List<F_PrefixEntry>, F_PrefixProof)));
pub open spec fn f_AuditorUpdate(cs: Suite) -> F_AuditorUpdate { (UInt { n: 8 }, (List { n: 2, f: f_PrefixEntry(cs) }, (List { n: 2, f: f_PrefixEntry(cs) }, f_PrefixProof(cs)))) }
pub open spec fn e_AuditorUpdate() -> F_AuditorUpdate { f_AuditorUpdate(any_cs()) }
pub open spec fn v_AuditorUpdate(x: st_AuditorUpdate) -> <F_AuditorUpdate as Fmt>::V { ((x.Timestamp as int), (vs_PrefixEntry(x.Added@), (vs_PrefixEntry(x.Removed@), v_PrefixProof(x.Proof)))) }
pub open spec fn vs_AuditorUpdate(s: Seq<st_AuditorUpdate>) -> Seq<<F_AuditorUpdate as Fmt>::V> { Seq::new(s.len(), |i: int| v_AuditorUpdate(s[i])) }
pub proof fn like_AuditorUpdate(cs: Suite) ensures f_AuditorUpdate(cs).like(e_AuditorUpdate()) {}
//@go tree/transparency/structs.NewAuditorUpdate
pub fn st_NewAuditorUpdate(cs: Suite, buf_r: &mut Buf) -> (r: (st_AuditorUpdate, Option<GoErr>)) ensures reads(f_AuditorUpdate(cs), old(buf_r)@, v_AuditorUpdate(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> psr_nn(r.0.Proof.Results@)
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.AuditorUpdate.Marshal
pub fn st_AuditorUpdate_Marshal(x: st_AuditorUpdate, buf_r: &mut Buf) -> (r: Option<GoErr>) requires psr_nn(x.Proof.Results@) ensures writes(e_AuditorUpdate(), v_AuditorUpdate(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_IndexedLogEntry = (UInt, F_LogEntry);
pub open spec fn f_IndexedLogEntry(cs: Suite) -> F_IndexedLogEntry { (UInt { n: 8 }, f_LogEntry(cs)) }
pub open spec fn e_IndexedLogEntry() -> F_IndexedLogEntry { f_IndexedLogEntry(any_cs()) }
pub open spec fn v_IndexedLogEntry(x: st_IndexedLogEntry) -> <F_IndexedLogEntry as Fmt>::V { ((x.Position as int), v_LogEntry(x.LogEntry)) }
pub open spec fn vs_IndexedLogEntry(s: Seq<st_IndexedLogEntry>) -> Seq<<F_IndexedLogEntry as Fmt>::V> { Seq::new(s.len(), |i: int| v_IndexedLogEntry(s[i])) }
pub proof fn like_IndexedLogEntry(cs: Suite) ensures f_IndexedLogEntry(cs).like(e_IndexedLogEntry()) {}
//@go tree/transparency/structs.NewIndexedLogEntry
pub fn st_NewIndexedLogEntry(cs: Suite, buf_r: &mut Buf) -> (r: (st_IndexedLogEntry, Option<GoErr>)) ensures reads(f_IndexedLogEntry(cs), old(buf_r)@, v_IndexedLogEntry(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.IndexedLogEntry.Marshal
pub fn st_IndexedLogEntry_Marshal(x: st_IndexedLogEntry, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_IndexedLogEntry(), v_IndexedLogEntry(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_RetainedVersion = (UInt, (Fixed, Opt<Fixed>));
pub open spec fn f_RetainedVersion(cs: Suite) -> F_RetainedVersion { (UInt { n: 4 }, (Fixed { n: hsize(cs) }, Opt { f: Fixed { n: hsize(cs) } })) }
pub open spec fn e_RetainedVersion() -> F_RetainedVersion { f_RetainedVersion(any_cs()) }
pub open spec fn v_RetainedVersion(x: st_RetainedVersion) -> <F_RetainedVersion as Fmt>::V { ((x.Version as int), (x.VrfOutput@, nilopt(x.Commitment))) }
pub open spec fn vs_RetainedVersion(s: Seq<st_RetainedVersion>) -> Seq<<F_RetainedVersion as Fmt>::V> { Seq::new(s.len(), |i: int| v_RetainedVersion(s[i])) }
pub proof fn like_RetainedVersion(cs: Suite) ensures f_RetainedVersion(cs).like(e_RetainedVersion()) {}
//@go tree/transparency/structs.NewRetainedVersion
pub fn st_NewRetainedVersion(cs: Suite, buf_r: &mut Buf) -> (r: (st_RetainedVersion, Option<GoErr>)) ensures reads(f_RetainedVersion(cs), old(buf_r)@, v_RetainedVersion(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.RetainedVersion.Marshal
pub fn st_RetainedVersion_Marshal(x: st_RetainedVersion, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_RetainedVersion(), v_RetainedVersion(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_LabelOwnerState = (UInt, (UInt, List<UInt>));
pub open spec fn f_LabelOwnerState() -> F_LabelOwnerState { (UInt { n: 8 }, (UInt { n: 8 }, List { n: 4, f: UInt { n: 8 } })) }
pub open spec fn e_LabelOwnerState() -> F_LabelOwnerState { f_LabelOwnerState() }
pub open spec fn v_LabelOwnerState(x: st_LabelOwnerState) -> <F_LabelOwnerState as Fmt>::V { ((x.Starting as int), (u64_of(x.VerAtStarting), nums_u64(x.UpcomingVers@))) }
pub open spec fn vs_LabelOwnerState(s: Seq<st_LabelOwnerState>) -> Seq<<F_LabelOwnerState as Fmt>::V> { Seq::new(s.len(), |i: int| v_LabelOwnerState(s[i])) }
//@go tree/transparency/structs.NewLabelOwnerState
pub fn st_NewLabelOwnerState(buf_r: &mut Buf) -> (r: (Option<st_LabelOwnerState>, Option<GoErr>)) ensures reads(f_LabelOwnerState(), old(buf_r)@, v_LabelOwnerState(r.0.unwrap()), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> r.0.is_some()
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.LabelOwnerState.Marshal
pub fn st_LabelOwnerState_Marshal(x: Option<st_LabelOwnerState>, buf_r: &mut Buf) -> (r: Option<GoErr>) requires x.is_some() ensures writes(e_LabelOwnerState(), v_LabelOwnerState(x.unwrap()), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
//@go tree/transparency/structs.readFuncSlice[u32,st_MonitorMapEntry]#tree/transparency/structs.NewMonitorMapEntry
pub fn st_readFuncSlice_u32_MonitorMapEntry(buf_r: &mut Buf) -> (r: (Slice<st_MonitorMapEntry>, Option<GoErr>))
    ensures reads(List { n: 4, f: f_MonitorMapEntry() }, old(buf_r)@, vs_MonitorMapEntry(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u32 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_MonitorMapEntry(), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_MonitorMapEntry(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_MonitorMapEntry(), IDX as nat, b1) == Some((vs_MonitorMapEntry(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 4 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_MonitorMapEntry(), IDX1 as nat, b1).is_none() { lemma_all_none(f_MonitorMapEntry(), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_MonitorMapEntry(out@.subrange(0, IDX1 as int)) =~= vs_MonitorMapEntry(out0@.subrange(0, IDX1 - 1)).push(v_MonitorMapEntry(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u32,st_MonitorMapEntry,st_MonitorMapEntry]
pub fn st_writeMarshalSlice_u32_MonitorMapEntry(buf_r: &mut Buf, out: Slice<st_MonitorMapEntry>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 4, f: e_MonitorMapEntry() }, vs_MonitorMapEntry(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_MonitorMapEntry(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(4), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 4) + enc_all(e_MonitorMapEntry(), vs_MonitorMapEntry(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_MonitorMapEntry()).fits(#[trigger] vs_MonitorMapEntry(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_MonitorMapEntry(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_MonitorMapEntry(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_MonitorMapEntry(out@)[IDX1 - 1]); assert(vs_MonitorMapEntry(out@)[IDX1 - 1] == v_MonitorMapEntry(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
//@go tree/transparency/structs.readFuncSlice[u32,st_RetainedVersion]#tree/transparency/structs.NewRetainedVersion
pub fn st_readFuncSlice_u32_RetainedVersion(buf_r: &mut Buf, cs: Suite) -> (r: (Slice<st_RetainedVersion>, Option<GoErr>))
    ensures reads(List { n: 4, f: f_RetainedVersion(cs) }, old(buf_r)@, vs_RetainedVersion(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u32 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_RetainedVersion(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_RetainedVersion(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_RetainedVersion(cs), IDX as nat, b1) == Some((vs_RetainedVersion(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 4 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_RetainedVersion(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_RetainedVersion(cs), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_RetainedVersion(out@.subrange(0, IDX1 as int)) =~= vs_RetainedVersion(out0@.subrange(0, IDX1 - 1)).push(v_RetainedVersion(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u32,st_RetainedVersion,st_RetainedVersion]
pub fn st_writeMarshalSlice_u32_RetainedVersion(buf_r: &mut Buf, out: Slice<st_RetainedVersion>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 4, f: e_RetainedVersion() }, vs_RetainedVersion(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_RetainedVersion(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(4), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 4) + enc_all(e_RetainedVersion(), vs_RetainedVersion(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_RetainedVersion()).fits(#[trigger] vs_RetainedVersion(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_RetainedVersion(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_RetainedVersion(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_RetainedVersion(out@)[IDX1 - 1]); assert(vs_RetainedVersion(out@)[IDX1 - 1] == v_RetainedVersion(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_ClientLabelState = (List<F_MonitorMapEntry>, (Opt<F_LabelOwnerState>, List<F_RetainedVersion>));
pub open spec fn f_ClientLabelState(cs: Suite) -> F_ClientLabelState { (List { n: 4, f: f_MonitorMapEntry() }, (Opt { f: f_LabelOwnerState() }, List { n: 4, f: f_RetainedVersion(cs) })) }
pub open spec fn e_ClientLabelState() -> F_ClientLabelState { f_ClientLabelState(any_cs()) }
pub open spec fn v_ClientLabelState(x: st_ClientLabelState) -> <F_ClientLabelState as Fmt>::V { (vs_MonitorMapEntry(x.Contact@), ((match x.Owner { Some(y) => Some(v_LabelOwnerState(y)), None => None }), vs_RetainedVersion(x.Versions@))) }
pub open spec fn vs_ClientLabelState(s: Seq<st_ClientLabelState>) -> Seq<<F_ClientLabelState as Fmt>::V> { Seq::new(s.len(), |i: int| v_ClientLabelState(s[i])) }
pub proof fn like_ClientLabelState(cs: Suite) ensures f_ClientLabelState(cs).like(e_ClientLabelState()) {}
//@go tree/transparency/structs.NewClientLabelState
pub fn st_NewClientLabelState(cs: Suite, buf_r: &mut Buf) -> (r: (st_ClientLabelState, Option<GoErr>)) ensures reads(f_ClientLabelState(cs), old(buf_r)@, v_ClientLabelState(r.0), final(buf_r)@, r.1.is_some())
//@attr alloc buf@.len() + 0xffff
//@end
//@go tree/transparency/structs.ClientLabelState.Marshal
pub fn st_ClientLabelState_Marshal(x: st_ClientLabelState, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures writes(e_ClientLabelState(), v_ClientLabelState(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub open spec fn u64_of(x: i64) -> int { x as int % 0x1_0000_0000_0000_0000 }
//@go tree/transparency/structs.readFuncSlice[u8,st_IndexedLogEntry]#tree/transparency/structs.NewIndexedLogEntry
pub fn st_readFuncSlice_u8_IndexedLogEntry(buf_r: &mut Buf, cs: Suite) -> (r: (Slice<st_IndexedLogEntry>, Option<GoErr>))
    ensures reads(List { n: 1, f: f_IndexedLogEntry(cs) }, old(buf_r)@, vs_IndexedLogEntry(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_u8 1
    let ghost b1 = buf@;
    proof { lemma_pows(); lemma_all_progress(f_IndexedLogEntry(cs), RES0 as nat, b1); }
//@hint before loop 1
    proof { assert(vs_IndexedLogEntry(out@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all(f_IndexedLogEntry(cs), IDX as nat, b1) == Some((vs_IndexedLogEntry(out@.subrange(0, IDX as int)), buf@)),
        (UInt { n: 1 }).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof { if parse_all(f_IndexedLogEntry(cs), IDX1 as nat, b1).is_none() { lemma_all_none(f_IndexedLogEntry(cs), IDX1 as nat, size as nat, b1); } }
//@hint loop 1 bottom
    proof { assert(vs_IndexedLogEntry(out@.subrange(0, IDX1 as int)) =~= vs_IndexedLogEntry(out0@.subrange(0, IDX1 - 1)).push(v_IndexedLogEntry(elem))); }
//@hint after loop 1
    proof { assert(out@.subrange(0, size as int) =~= out@); }
//@end
//@go tree/transparency/structs.writeMarshalSlice[u8,st_IndexedLogEntry,st_IndexedLogEntry]
pub fn st_writeMarshalSlice_u8_IndexedLogEntry(buf_r: &mut Buf, out: Slice<st_IndexedLogEntry>, name: Str) -> (r: Option<GoErr>)
    ensures writes(List { n: 1, f: e_IndexedLogEntry() }, vs_IndexedLogEntry(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@hint before loop 1
    proof { assert(vs_IndexedLogEntry(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == out, out@.len() < pow256(1), buf@ == old(buf_r)@ + (unbe(out@.len() as int, 1) + enc_all(e_IndexedLogEntry(), vs_IndexedLogEntry(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> (e_IndexedLogEntry()).fits(#[trigger] vs_IndexedLogEntry(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_IndexedLogEntry(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_IndexedLogEntry(out@.subrange(0, IDX1 - 1))); assert(w.last() == vs_IndexedLogEntry(out@)[IDX1 - 1]); assert(vs_IndexedLogEntry(out@)[IDX1 - 1] == v_IndexedLogEntry(elem)); }
//@hint after loop 1
    proof { assert(out@.subrange(0, out@.len() as int) =~= out@); }
//@end
pub type F_ClientState = (F_TreeHead, (Cond<F_AuditorTreeHead>, (List<Fixed>, List<F_IndexedLogEntry>)));
pub open spec fn f_ClientState(config: st_PublicConfig) -> F_ClientState { (f_TreeHead(), (Cond { on: config.Config.Mode == 3u8, f: f_AuditorTreeHead() }, (List { n: 1, f: Fixed { n: hsize(config.Config.Suite) } }, List { n: 1, f: f_IndexedLogEntry(config.Config.Suite) }))) }
pub open spec fn e_ClientState() -> F_ClientState { f_ClientState(any_config()) }
pub proof fn like_ClientState(config: st_PublicConfig) ensures f_ClientState(config).like(e_ClientState()) {}
// the entries in some order: every position once
pub open spec fn lists(s: Seq<st_IndexedLogEntry>, m: Map<u64, st_LogEntry>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).Position != (#[trigger] s[j]).Position)
    && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).Position) && m[s[i].Position] == s[i].LogEntry)
    && (forall|k: u64| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && s[i].Position == k)
}
pub open spec fn v_ClientState(x: st_ClientState, s: Seq<st_IndexedLogEntry>) -> <F_ClientState as Fmt>::V { (v_TreeHead(x.TreeHead), (match x.AuditorTreeHead { Some(y) => Some(v_AuditorTreeHead(y)), None => None }, (views(x.FullSubtrees@), vs_IndexedLogEntry(s)))) }
pub open spec fn writes_cs(x: st_ClientState, b: B, c: B, err: bool) -> bool { exists|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) && #[trigger] writes(e_ClientState(), v_ClientState(x, s), b, c, err) }
pub open spec fn dup(s: Seq<(int, (int, B))>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 }
pub open spec fn reads_cs(config: st_PublicConfig, b: B, x: st_ClientState, rest: B, err: bool) -> bool { match f_ClientState(config).parse(b) {
    None => err,
    Some((w, r)) => (err <==> dup(w.1.1.1)) && (!err ==> rest == r && exists|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) && #[trigger] v_ClientState(x, s) == w),
} }
//@go tree/transparency/structs.ClientState.Marshal
pub fn st_ClientState_Marshal(x: st_ClientState, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures r.is_none() ==> writes_cs(x, old(buf_r)@, final(buf_r)@, false),
    r.is_some() ==> forall|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) ==> !e_ClientState().fits(#[trigger] v_ClientState(x, s))
//@hint entry
    proof { lemma_pows(); }
//@loop 1
    invariant MAP == x.LogEntries, SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> MAP@.dom().contains(#[trigger] SEQ@[i]),
        entrySlice@.len() == IDX, forall|i: int| 0 <= i < IDX ==> (#[trigger] entrySlice@[i]).Position == SEQ@[i] && entrySlice@[i].LogEntry == MAP@[SEQ@[i]],
    decreases SEQ@.len() - IDX
//@hint after loop 1
    proof { assert(lists(entrySlice@, x.LogEntries@)) by { assert forall|i: int, j: int| 0 <= i < j < entrySlice@.len() implies (#[trigger] entrySlice@[i]).Position != (#[trigger] entrySlice@[j]).Position by { assert(SEQ1@[i] != SEQ1@[j]); } assert forall|k: u64| #[trigger] x.LogEntries@.dom().contains(k) implies exists|i: int| 0 <= i < entrySlice@.len() && entrySlice@[i].Position == k by { assert(SEQ1@.contains(k)); let i = SEQ1@.index_of(k); assert(entrySlice@[i].Position == k); } } }
//@hint after loop 1
    proof { lemma_lists_len(entrySlice@, x.LogEntries@); assert forall|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) implies s.len() == entrySlice@.len() by { lemma_lists_len(s, x.LogEntries@); } assert forall|s: Seq<st_IndexedLogEntry>, i: int| 0 <= i < s.len() implies #[trigger] e_IndexedLogEntry().fits(vs_IndexedLogEntry(s)[i]) by { } }
//@hint return 4
    proof { if ret.is_none() { assert(writes(e_ClientState(), v_ClientState(x, entrySlice@), old(buf_r)@, buf@, false)); } }
//@end
//@go tree/transparency/structs.NewClientState
pub fn st_NewClientState(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_ClientState, Option<GoErr>)) ensures reads_cs(config, old(buf_r)@, r.0, final(buf_r)@, r.1.is_some())
//@loop 1
    invariant SEQ == entrySlice, !logEntries.nil@, lists(entrySlice@.subrange(0, IDX as int), logEntries@),
    decreases SEQ@.len() - IDX
//@hint entry
    let ghost w = f_ClientState(config).parse(buf@).unwrap().0;
//@hint before loop 1
    proof { assert(lists(entrySlice@.subrange(0, 0), logEntries@)); assert(w.1.1.1 == vs_IndexedLogEntry(entrySlice@)); }
//@hint loop 1 top
    let ghost m0 = logEntries@;
    proof { let t = entrySlice@.subrange(0, IDX1 - 1); if m0.dom().contains(entry.Position) { let i = choose|i: int| 0 <= i < t.len() && t[i].Position == entry.Position; assert(w.1.1.1[i].0 == w.1.1.1[IDX1 - 1].0); assert(dup(w.1.1.1)); } }
//@hint loop 1 bottom
    proof { lemma_lists_push(entrySlice@.subrange(0, IDX1 - 1), m0, entry); assert(entrySlice@.subrange(0, IDX1 as int) =~= entrySlice@.subrange(0, IDX1 - 1).push(entry)); }
//@hint after loop 1
    proof { assert(entrySlice@.subrange(0, entrySlice@.len() as int) =~= entrySlice@); if dup(w.1.1.1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < w.1.1.1.len() && (#[trigger] w.1.1.1[i]).0 == (#[trigger] w.1.1.1[j]).0; assert(entrySlice@[i].Position == entrySlice@[j].Position); } }
//@hint return 6
    proof { assert(v_ClientState(ret.0, entrySlice@) == w); }
//@end
pub proof fn lemma_lists_len(s: Seq<st_IndexedLogEntry>, m: Map<u64, st_LogEntry>) requires lists(s, m) ensures s.len() == m.dom().len()
{ let p = Seq::new(s.len(), |i: int| s[i].Position); assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j { assert(s[i].Position != s[j].Position); } else { assert(s[j].Position != s[i].Position); } } } p.unique_seq_to_set(); assert(p.to_set() =~= m.dom()) by { assert forall|k: u64| p.to_set().contains(k) == m.dom().contains(k) by { if p.to_set().contains(k) { let i = p.index_of(k); assert(s[i].Position == k); } if m.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i].Position == k; assert(p[i] == k); } } } }
pub proof fn lemma_lists_push(t: Seq<st_IndexedLogEntry>, m: Map<u64, st_LogEntry>, e: st_IndexedLogEntry) requires lists(t, m), !m.dom().contains(e.Position) ensures lists(t.push(e), m.insert(e.Position, e.LogEntry))
{ let u = t.push(e); let n = m.insert(e.Position, e.LogEntry); assert forall|k: u64| #[trigger] n.dom().contains(k) implies exists|i: int| 0 <= i < u.len() && u[i].Position == k by { if k == e.Position { assert(u[t.len() as int].Position == k); } else { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < t.len() && t[i].Position == k; assert(u[i].Position == k); } } }
// C14 for client state: the same heads, subtrees and entries come back.
pub proof fn prop_cs_roundtrip(config: st_PublicConfig, x: st_ClientState, bytes: B, y: st_ClientState, rest: B, tail: B, err: bool)
    requires writes_cs(x, Seq::empty(), bytes, false), forall|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) ==> #[trigger] f_ClientState(config).valid(v_ClientState(x, s)), reads_cs(config, bytes + tail, y, rest, err)
    ensures !err, rest == tail, v_TreeHead(y.TreeHead) == v_TreeHead(x.TreeHead), views(y.FullSubtrees@) == views(x.FullSubtrees@), x.AuditorTreeHead.is_some() == y.AuditorTreeHead.is_some(), x.AuditorTreeHead.is_some() ==> v_AuditorTreeHead(x.AuditorTreeHead.unwrap()) == v_AuditorTreeHead(y.AuditorTreeHead.unwrap()),
        x.LogEntries@.dom() =~= y.LogEntries@.dom(), forall|k: u64| #[trigger] x.LogEntries@.dom().contains(k) ==> v_LogEntry(x.LogEntries@[k]) == v_LogEntry(y.LogEntries@[k])
{
    let f = f_ClientState(config); let s = choose|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) && #[trigger] writes(e_ClientState(), v_ClientState(x, s), Seq::empty(), bytes, false);
    let v = v_ClientState(x, s); f.roundtrip(v, tail); f.same(e_ClientState(), v); assert(Seq::<u8>::empty() + f.enc(v) =~= f.enc(v));
    if dup(v.1.1.1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < v.1.1.1.len() && (#[trigger] v.1.1.1[i]).0 == (#[trigger] v.1.1.1[j]).0; assert(s[i].Position != s[j].Position); }
    let u = choose|u: Seq<st_IndexedLogEntry>| lists(u, y.LogEntries@) && #[trigger] v_ClientState(y, u) == v;
    assert(u.len() == s.len()) by { assert(vs_IndexedLogEntry(u).len() == vs_IndexedLogEntry(s).len()); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).Position == u[i].Position && v_LogEntry(s[i].LogEntry) == v_LogEntry(u[i].LogEntry) by { assert(vs_IndexedLogEntry(u)[i] == vs_IndexedLogEntry(s)[i]); }
    assert forall|k: u64| x.LogEntries@.dom().contains(k) == y.LogEntries@.dom().contains(k) && (x.LogEntries@.dom().contains(k) ==> v_LogEntry(x.LogEntries@[k]) == v_LogEntry(y.LogEntries@[k])) by {
        if x.LogEntries@.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i].Position == k; assert(y.LogEntries@.dom().contains(u[i].Position)); }
        if y.LogEntries@.dom().contains(k) { let i = choose|i: int| 0 <= i < u.len() && u[i].Position == k; assert(s[i].Position == k); }
    }
}
pub uninterp spec fn ones(n: u64) -> int;
pub uninterp spec fn flen(n: u64) -> int;
//@ext math/bits.OnesCount64
pub fn bits_OnesCount64(n: u64) -> (r: i64) ensures r == ones(n), 0 <= r <= 64
//@end
//@ext tree/transparency/math.Frontier
pub fn tm_Frontier(n: u64) -> (r: Slice<u64>) requires n > 0 ensures r@.len() == flen(n), flen(n) <= 64
//@end
pub type F_Inserted = (UInt, Fixed);
pub type F_AuditorTail = (Rep<Fixed>, (Rep<UInt>, (Fixed, List<F_Inserted>)));
pub open spec fn f_Inserted(cs: Suite) -> F_Inserted { (UInt { n: 8 }, Fixed { n: hsize(cs) }) }
pub open spec fn f_AuditorTail(cs: Suite, n: int) -> F_AuditorTail { (Rep { k: ones(n as u64), f: Fixed { n: hsize(cs) } }, (Rep { k: flen(n as u64), f: UInt { n: 8 } }, (Fixed { n: hsize(cs) }, List { n: 2, f: f_Inserted(cs) }))) }
pub struct F_AuditorState { pub cs: Suite }
impl Fmt for F_AuditorState {
    type V = (<F_AuditorTreeHead as Fmt>::V, <F_AuditorTail as Fmt>::V);
    open spec fn enc(self, v: Self::V) -> B { f_AuditorTreeHead().enc(v.0) + f_AuditorTail(self.cs, v.0.1.0).enc(v.1) }
    open spec fn pos(self) -> bool { false }
    proof fn progress(self, b: B) { }
    open spec fn fits(self, v: Self::V) -> bool { f_AuditorTreeHead().fits(v.0) && f_AuditorTail(self.cs, v.0.1.0).fits(v.1) }
    open spec fn valid(self, v: Self::V) -> bool { f_AuditorTreeHead().valid(v.0) && v.0.1.0 > 0 && f_AuditorTail(self.cs, v.0.1.0).valid(v.1) }
    open spec fn parse(self, b: B) -> Option<(Self::V, B)> { match f_AuditorTreeHead().parse(b) { None => None, Some((x, r)) => if x.1.0 == 0 { None } else { match f_AuditorTail(self.cs, x.1.0).parse(r) { None => None, Some((y, s)) => Some(((x, y), s)) } } } }
    proof fn roundtrip(self, v: Self::V, rest: B) { let t = f_AuditorTail(self.cs, v.0.1.0); t.roundtrip(v.1, rest); f_AuditorTreeHead().roundtrip(v.0, t.enc(v.1) + rest); assert(f_AuditorTreeHead().enc(v.0) + (t.enc(v.1) + rest) =~= self.enc(v) + rest); }
    open spec fn like(self, g: Self) -> bool { true }
    proof fn same(self, g: Self, v: Self::V) { let n = v.0.1.0; assert(f_AuditorTail(self.cs, n).like(f_AuditorTail(g.cs, n))); f_AuditorTail(self.cs, n).same(f_AuditorTail(g.cs, n), v.1); }
    proof fn canonical(self, b: B) { f_AuditorTreeHead().canonical(b); match f_AuditorTreeHead().parse(b) { None => {} Some((x, r)) => { let t = f_AuditorTail(self.cs, x.1.0); t.canonical(r); match t.parse(r) { None => {} Some((y, s)) => { f_AuditorTreeHead().roundtrip(x, r); assert(b =~= self.enc((x, y)) + s); } } } } }
}
pub open spec fn e_AuditorState() -> F_AuditorState { F_AuditorState { cs: any_cs() } }
pub open spec fn v_Inserted(x: au_InsertedVrfOutput) -> <F_Inserted as Fmt>::V { (x.Pos as int, x.VrfOutput@) }
pub open spec fn vs_Inserted(s: Seq<au_InsertedVrfOutput>) -> Seq<<F_Inserted as Fmt>::V> { Seq::new(s.len(), |i: int| v_Inserted(s[i])) }
pub open spec fn v_AuditorState(x: au_AuditorState) -> <F_AuditorState as Fmt>::V { (v_AuditorTreeHead(x.TreeHead), (views(x.FullSubtrees@), (nums_u64(x.Timestamps@), (x.PrefixTree@, vs_Inserted(x.Inserted@))))) }
//@go tree/transparency/auditor.AuditorState.Marshal
pub fn au_AuditorState_Marshal(x: Option<au_AuditorState>) -> (r: (Slice<u8>, Option<GoErr>)) requires x.is_some() ensures writes(e_AuditorState(), v_AuditorState(x.unwrap()), Seq::empty(), r.0@, r.1.is_some())
//@hint entry
    let ghost y = x.unwrap();
    let ghost mut c1 = Seq::<u8>::empty();
    let ghost mut c2 = c1;
    let ghost mut c3 = c1;
    let ghost w = v_AuditorState(y);
    proof { lemma_pows(); assert forall|v: Seq<<F_Inserted as Fmt>::V>| #![trigger f_Inserted(any_cs()).fits(v[0])] true by {} }
//@hint before loop 1
    proof { c1 = buf@; assert(views(y.FullSubtrees@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == y.FullSubtrees, buf@ == c1 + enc_all(e_bytes(), views(y.FullSubtrees@.subrange(0, IDX as int))),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = views(y.FullSubtrees@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= views(y.FullSubtrees@.subrange(0, IDX1 - 1))); assert(w.last() == subtree@); }
//@hint after loop 1
    proof { assert(y.FullSubtrees@.subrange(0, y.FullSubtrees@.len() as int) =~= y.FullSubtrees@); c2 = buf@; }
//@hint before loop 2
    proof { assert(nums_u64(y.Timestamps@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 2
    invariant SEQ == y.Timestamps, buf@ == c2 + enc_all(UInt { n: 8 }, nums_u64(y.Timestamps@.subrange(0, IDX as int))),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    proof { let w = nums_u64(y.Timestamps@.subrange(0, IDX2 as int)); assert(w.drop_last() =~= nums_u64(y.Timestamps@.subrange(0, IDX2 - 1))); assert(w.last() == timestamp as int); }
//@hint after loop 2
    proof { assert(y.Timestamps@.subrange(0, y.Timestamps@.len() as int) =~= y.Timestamps@); }
//@hint before loop 3
    proof { c3 = buf@; assert(vs_Inserted(y.Inserted@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 3
    invariant SEQ == y.Inserted, buf@ == c3 + enc_all(f_Inserted(any_cs()), vs_Inserted(y.Inserted@.subrange(0, IDX as int))),
    decreases SEQ@.len() - IDX
//@hint loop 3 top
    proof { let w = vs_Inserted(y.Inserted@.subrange(0, IDX3 as int)); assert(w.drop_last() =~= vs_Inserted(y.Inserted@.subrange(0, IDX3 - 1))); assert(w.last() == v_Inserted(inserted)); }
//@hint after loop 3
    proof { assert(y.Inserted@.subrange(0, y.Inserted@.len() as int) =~= y.Inserted@); assert(Seq::<u8>::empty() + buf@ =~= buf@); }
//@end
//@go tree/transparency/auditor.NewAuditorState
pub fn au_NewAuditorState(cs: Suite, buf_r: &mut Buf) -> (r: (Option<au_AuditorState>, Option<GoErr>)) ensures reads(F_AuditorState { cs: cs }, old(buf_r)@, v_AuditorState(r.0.unwrap()), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> r.0.is_some()
//@attr alloc buf@.len() + 0xffff
//@hint entry
    let ghost b0 = buf@;
    let ghost mut b1 = b0;
    let ghost mut b2 = b0;
    let ghost mut b3 = b0;
    let ghost mut b4 = b0;
    let ghost fa = Fixed { n: hsize(cs) };
    let ghost fb = UInt { n: 8 };
    let ghost fc = f_Inserted(cs);
    proof { lemma_pows(); }
//@hint before loop 1
    proof { b1 = buf@; assert(views(fullSubtrees@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant fullSubtrees@.len() == SEQ@.len(), parse_all(fa, IDX as nat, b1) == Some((views(fullSubtrees@.subrange(0, IDX as int)), buf@)),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost out0 = fullSubtrees;
    proof { if parse_all(fa, IDX1 as nat, b1).is_none() { lemma_all_none(fa, IDX1 as nat, SEQ1@.len(), b1); } }
//@hint loop 1 bottom
    proof { assert(views(fullSubtrees@.subrange(0, IDX1 as int)) =~= views(out0@.subrange(0, IDX1 - 1)).push(fullSubtree@)); }
//@hint after loop 1
    proof { assert(fullSubtrees@.subrange(0, fullSubtrees@.len() as int) =~= fullSubtrees@); b2 = buf@; }
//@hint before loop 2
    proof { assert(nums_u64(timestamps@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 2
    invariant timestamps@.len() == SEQ@.len(), parse_all(fb, IDX as nat, b2) == Some((nums_u64(timestamps@.subrange(0, IDX as int)), buf@)),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost out0 = timestamps;
    proof { if parse_all(fb, IDX2 as nat, b2).is_none() { lemma_all_none(fb, IDX2 as nat, SEQ2@.len(), b2); } }
//@hint loop 2 bottom
    proof { assert(nums_u64(timestamps@.subrange(0, IDX2 as int)) =~= nums_u64(out0@.subrange(0, IDX2 - 1)).push(timestamp as int)); }
//@hint after loop 2
    proof { assert(timestamps@.subrange(0, timestamps@.len() as int) =~= timestamps@); b3 = buf@; }
//@hint before loop 3
    proof { b4 = buf@; assert(vs_Inserted(inserted@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 3
    invariant inserted@.len() == SEQ, parse_all(fc, IDX as nat, b4) == Some((vs_Inserted(inserted@.subrange(0, IDX as int)), buf@)),
    decreases SEQ - IDX
//@hint loop 3 top
    let ghost out0 = inserted;
    proof { if parse_all(fc, IDX3 as nat, b4).is_none() { lemma_all_none(fc, IDX3 as nat, SEQ3 as nat, b4); } }
//@hint loop 3 bottom
    proof { assert(vs_Inserted(inserted@.subrange(0, IDX3 as int)) =~= vs_Inserted(out0@.subrange(0, IDX3 - 1)).push((pos as int, vrfOutput@))); }
//@hint after loop 3
    proof { assert(inserted@.subrange(0, inserted@.len() as int) =~= inserted@); }
//@end
pub uninterp spec fn suite_id(cs: Suite) -> u16;
pub uninterp spec fn vrf_bytes(k: VrfPub) -> Seq<u8>;
//@ext crypto/suites.CipherSuite.Id
pub fn suite_Id(cs: Suite) -> (r: u16) ensures r == suite_id(cs)
//@end
//@ext crypto/vrf.PublicKey.Bytes
pub fn vrf_Bytes(k: VrfPub) -> (r: Slice<u8>) ensures r@ == vrf_bytes(k)
//@end
pub type F_Keys = (Bytes, Bytes);
pub type F_Params = (UInt, (UInt, (UInt, Opt<UInt>)));
pub type F_PublicConfig = (UInt, Tag3<(F_Keys, F_Params), (F_Keys, (Bytes, F_Params)), (F_Keys, ((UInt, (UInt, Bytes)), F_Params))>);
pub open spec fn f_Keys() -> F_Keys { (Bytes { n: 2 }, Bytes { n: 2 }) }
pub open spec fn f_Params() -> F_Params { (UInt { n: 8 }, (UInt { n: 8 }, (UInt { n: 8 }, Opt { f: UInt { n: 8 } }))) }
pub open spec fn f_PublicConfig() -> F_PublicConfig { (UInt { n: 2 }, Tag3 { a: 1, c: 2, d: 3, f: (f_Keys(), f_Params()), g: (f_Keys(), (Bytes { n: 2 }, f_Params())), h: (f_Keys(), ((UInt { n: 8 }, (UInt { n: 8 }, Bytes { n: 2 })), f_Params())) }) }
pub open spec fn v_Keys(x: st_PublicConfig) -> <F_Keys as Fmt>::V { (key_bytes(x.SignatureKey), vrf_bytes(x.VrfKey)) }
pub open spec fn v_Params(x: st_Config) -> <F_Params as Fmt>::V { (x.MaxAhead as int, (x.MaxBehind as int, (x.ReasonableMonitoringWindow as int, if x.MaximumLifetime == 0 { None } else { Some(x.MaximumLifetime as int) }))) }
pub open spec fn v_PublicConfig(x: st_PublicConfig) -> <F_PublicConfig as Fmt>::V { (suite_id(x.Config.Suite) as int,
    if x.Config.Mode == 1 { Or3::A((v_Keys(x), v_Params(x.Config))) }
    else if x.Config.Mode == 2 { Or3::C((v_Keys(x), (key_bytes(x.Config.LeafPublicKey), v_Params(x.Config)))) }
    else { Or3::D((v_Keys(x), ((x.Config.MaxAuditorLag as int, (x.Config.AuditorStartPos as int, key_bytes(x.Config.AuditorPublicKey))), v_Params(x.Config)))) }) }
pub open spec fn cfg_ok(x: st_PublicConfig) -> bool { 1 <= x.Config.Mode <= 3 && !x.SignatureKey.nil@ && (x.Config.Mode == 2 ==> !x.Config.LeafPublicKey.nil@) && (x.Config.Mode == 3 ==> !x.Config.AuditorPublicKey.nil@) }
//@go tree/transparency/structs.PublicConfig.Marshal
pub fn st_PublicConfig_Marshal(x: st_PublicConfig, buf_r: &mut Buf) -> (r: Option<GoErr>) requires cfg_ok(x) ensures writes(f_PublicConfig(), v_PublicConfig(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); lemma_one(x.Config.Mode as int); }
//@end
pub type F_UpdateTBS = (F_PublicConfig, (Bytes, (UInt, Bytes)));
pub open spec fn f_UpdateTBS() -> F_UpdateTBS { (f_PublicConfig(), (Bytes { n: 1 }, (UInt { n: 4 }, Bytes { n: 4 }))) }
pub open spec fn e_UpdateTBS() -> F_UpdateTBS { f_UpdateTBS() }
pub open spec fn v_UpdateTBS(x: st_UpdateTBS) -> <F_UpdateTBS as Fmt>::V { (v_PublicConfig(x.Config), (x.Label@, ((x.Version as int), x.Value@))) }
pub open spec fn vs_UpdateTBS(s: Seq<st_UpdateTBS>) -> Seq<<F_UpdateTBS as Fmt>::V> { Seq::new(s.len(), |i: int| v_UpdateTBS(s[i])) }
//@go tree/transparency/structs.UpdateTBS.Marshal
pub fn st_UpdateTBS_Marshal(x: st_UpdateTBS, buf_r: &mut Buf) -> (r: Option<GoErr>) requires cfg_ok(x.Config) ensures writes(e_UpdateTBS(), v_UpdateTBS(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_TreeHeadTBS = (F_PublicConfig, (UInt, Fixed));
pub open spec fn f_TreeHeadTBS(cs: Suite) -> F_TreeHeadTBS { (f_PublicConfig(), (UInt { n: 8 }, Fixed { n: hsize(cs) })) }
pub open spec fn e_TreeHeadTBS() -> F_TreeHeadTBS { f_TreeHeadTBS(any_cs()) }
pub open spec fn v_TreeHeadTBS(x: st_TreeHeadTBS) -> <F_TreeHeadTBS as Fmt>::V { (v_PublicConfig(x.Config), ((x.TreeSize as int), x.Root@)) }
pub open spec fn vs_TreeHeadTBS(s: Seq<st_TreeHeadTBS>) -> Seq<<F_TreeHeadTBS as Fmt>::V> { Seq::new(s.len(), |i: int| v_TreeHeadTBS(s[i])) }
pub proof fn like_TreeHeadTBS(cs: Suite) ensures f_TreeHeadTBS(cs).like(e_TreeHeadTBS()) {}
//@go tree/transparency/structs.TreeHeadTBS.Marshal
pub fn st_TreeHeadTBS_Marshal(x: st_TreeHeadTBS, buf_r: &mut Buf) -> (r: Option<GoErr>) requires cfg_ok(x.Config) ensures writes(e_TreeHeadTBS(), v_TreeHeadTBS(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
pub type F_AuditorTreeHeadTBS = (F_PublicConfig, (UInt, (UInt, Fixed)));
pub open spec fn f_AuditorTreeHeadTBS(cs: Suite) -> F_AuditorTreeHeadTBS { (f_PublicConfig(), (UInt { n: 8 }, (UInt { n: 8 }, Fixed { n: hsize(cs) }))) }
pub open spec fn e_AuditorTreeHeadTBS() -> F_AuditorTreeHeadTBS { f_AuditorTreeHeadTBS(any_cs()) }
pub open spec fn v_AuditorTreeHeadTBS(x: st_AuditorTreeHeadTBS) -> <F_AuditorTreeHeadTBS as Fmt>::V { (v_PublicConfig(x.Config), ((x.Timestamp as int), ((x.TreeSize as int), x.Root@))) }
pub open spec fn vs_AuditorTreeHeadTBS(s: Seq<st_AuditorTreeHeadTBS>) -> Seq<<F_AuditorTreeHeadTBS as Fmt>::V> { Seq::new(s.len(), |i: int| v_AuditorTreeHeadTBS(s[i])) }
pub proof fn like_AuditorTreeHeadTBS(cs: Suite) ensures f_AuditorTreeHeadTBS(cs).like(e_AuditorTreeHeadTBS()) {}
//@go tree/transparency/structs.AuditorTreeHeadTBS.Marshal
pub fn st_AuditorTreeHeadTBS_Marshal(x: st_AuditorTreeHeadTBS, buf_r: &mut Buf) -> (r: Option<GoErr>) requires cfg_ok(x.Config) ensures writes(e_AuditorTreeHeadTBS(), v_AuditorTreeHeadTBS(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); }
//@end
// C14: two configurations with one encoding agree on everything encoded; so
// do two messages to be signed (their keys and suites by their encodings).
pub proof fn prop_signed_injective(cs: Suite, x: st_TreeHeadTBS, y: st_TreeHeadTBS)
    requires f_TreeHeadTBS(cs).valid(v_TreeHeadTBS(x)), f_TreeHeadTBS(cs).valid(v_TreeHeadTBS(y)), e_TreeHeadTBS().enc(v_TreeHeadTBS(x)) == e_TreeHeadTBS().enc(v_TreeHeadTBS(y))
    ensures x.TreeSize == y.TreeSize, x.Root@ == y.Root@, cfg_ok(x.Config) && cfg_ok(y.Config) ==> x.Config.Config.Mode == y.Config.Config.Mode, suite_id(x.Config.Config.Suite) == suite_id(y.Config.Config.Suite), x.Config.Config.MaximumLifetime == y.Config.Config.MaximumLifetime
{ like_TreeHeadTBS(cs); prop_injective(f_TreeHeadTBS(cs), e_TreeHeadTBS(), v_TreeHeadTBS(x), v_TreeHeadTBS(y)); }
