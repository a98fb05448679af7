//@import tmath.vrs tladder.vrs
//@use buf.vrs
//@use keys.vrs
//@use uladder.vrs
//@nonnil tree/transparency.Tree tree/transparency/structs.PrivateConfig
//@dropfield tree/transparency.Tree.updater
//@typemap db.TransparencyStore DB DB::any()
//@typemap crypto/vrf.PrivateKey VrfKey VrfKey::any()
//@global io.EOF err_const(Ghost(21int))
// ---- C18: what a server stores and answers
// The server's database. Trusted: a call that fails has stored nothing (C19 is
// about the stores themselves).
pub struct DB { pub index: Ghost<Map<Seq<u8>, Seq<u8>>>, pub vers: Ghost<Map<(Seq<u8>, u32), Seq<u8>>>, pub entries: Ghost<Map<u64, Seq<u8>>>, pub head: Ghost<Option<Seq<u8>>>, pub committed: Ghost<bool> }
impl Clone for DB { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DB {}
impl DB { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct VrfKey { pub id: Ghost<int> }
impl Clone for VrfKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for VrfKey {}
impl VrfKey { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub open spec fn index_of(d: DB, l: Seq<u8>) -> Seq<u8> { if d.index@.dom().contains(l) { d.index@[l] } else { Seq::empty() } }
//@ext db.TransparencyStore.BatchGetIndex
pub fn ts_BatchGetIndex(d: DB, labels: Slice<Slice<u8>>) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    ensures r.1.is_none() && r.0@.len() == labels@.len() ==> forall|i: int| 0 <= i < labels@.len() ==> (#[trigger] r.0@[i])@ == index_of(d, labels@[i]@)
//@end
//@ext db.TransparencyStore.PutIndex
pub fn ts_PutIndex(d: &mut DB, label: Slice<u8>, index: Slice<u8>) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(d) == *old(d), r.is_none() ==> *final(d) == (DB { index: Ghost(old(d).index@.insert(label@, index@)), ..*old(d) })
//@end
// ---- unsigned varints. Trusted: encoding/binary reads and writes them as its
// documentation says.
pub open spec fn uv(x: int) -> Seq<u8> decreases x { if x < 128 { seq![x as u8] } else { seq![(x % 128 + 128) as u8] + uv(x / 128) } }
//@ext encoding/binary.PutUvarint
pub fn bin_PutUvarint(b: &mut Slice<u8>, x: u64) -> (r: i64)
    requires old(b)@.len() >= 10
    ensures r == uv(x as int).len(), 1 <= r <= 10, final(b)@.len() == old(b)@.len(), final(b)@.subrange(0, r as int) == uv(x as int), final(b).nil == old(b).nil
//@end
//@ext encoding/binary.ReadUvarint
pub fn bin_ReadUvarint(b: &mut Buf) -> (r: (u64, Option<GoErr>))
    ensures forall|x: u64, rest: Seq<u8>| old(b)@ == #[trigger] (uv(x as int) + rest) ==> r.0 == x && r.1.is_none() && final(b)@ == rest,
        r.1.is_none() ==> final(b)@.len() < old(b)@.len(), old(b)@.len() == 0 <==> r.1 == (Some(GoErr { code: Ghost(21) }))
//@end
// ---- position lists: the differences of the positions, as varints
pub open spec fn encd(ds: Seq<u64>) -> Seq<u8> decreases ds.len() { if ds.len() == 0 { Seq::empty() } else { uv(ds[0] as int) + encd(ds.skip(1)) } }
pub open spec fn diffs(s: Seq<u64>) -> Seq<u64> { Seq::new(s.len(), |i: int| if i == 0 { s[0] } else { (s[i] - s[i - 1]) as u64 }) }
pub open spec fn nondecr(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub open spec fn enc_index(s: Seq<u64>) -> Seq<u8> { encd(diffs(s)) }
pub proof fn encd_push(ds: Seq<u64>, d: u64) ensures encd(ds.push(d)) == encd(ds) + uv(d as int) decreases ds.len()
{
    if ds.len() == 0 { reveal_with_fuel(encd, 2); assert(ds.push(d).skip(1) =~= Seq::<u64>::empty()); assert(encd(ds.push(d)) =~= uv(d as int)); }
    else { assert(ds.push(d).skip(1) =~= ds.skip(1).push(d)); encd_push(ds.skip(1), d); assert(encd(ds.push(d)) =~= encd(ds) + uv(d as int)); }
}
pub proof fn uv_len(x: int) ensures uv(x).len() > 0 decreases x { }
//@go tree/transparency.Tree.putIndex
pub fn tr_putIndex(t_r: &mut tr_Tree, label: Slice<u8>, index: Slice<u64>) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(t_r) == *old(t_r),
        r.is_none() ==> nondecr(index@) && *final(t_r) == (tr_Tree { tx: DB { index: Ghost(old(t_r).tx.index@.insert(label@, enc_index(index@))), ..old(t_r).tx }, ..*old(t_r) }),
//@hint before loop 1
    proof { assert(compressed@ =~= index@); }
//@loop 1
    invariant compressed@.len() == index@.len(), -1 <= i < index@.len(), forall|j: int| 0 <= j < index@.len() ==> #[trigger] compressed@[j] == (if j > i && j > 0 { diffs(index@)[j] } else { index@[j] }),
        forall|a: int, b: int| i <= a < b < index@.len() && a >= 0 ==> index@[a] <= index@[b], i == -1 ==> index@.len() == 0,
    decreases i + 1
//@hint before loop 2
    proof { assert(compressed@ =~= diffs(index@)); assert(compressed@.take(0) =~= Seq::<u64>::empty()); }
//@loop 2
    invariant SEQ@ == diffs(index@), IDX <= SEQ@.len(), buf@ == encd(SEQ@.take(IDX as int)),
//@hint loop 2 top
    proof { let k = IDX - 1; assert(SEQ@.take(k + 1) =~= SEQ@.take(k).push(SEQ@[k])); encd_push(SEQ@.take(k), SEQ@[k]); }
//@hint after loop 2
    proof { assert(diffs(index@).take(index@.len() as int) =~= diffs(index@)); }
//@end
pub open spec fn starts_with(raw: Seq<u8>, ds: Seq<u64>) -> bool { raw == encd(ds) }
pub proof fn encd_empty(ds: Seq<u64>) requires encd(ds).len() == 0 ensures ds.len() == 0 { if ds.len() > 0 { uv_len(ds[0] as int); assert(encd(ds).len() == uv(ds[0] as int).len() + encd(ds.skip(1)).len()); } }
// how far the sums have got
pub open spec fn partial(v: Seq<u64>, s: Seq<u64>, k: int) -> bool { v.len() == s.len() && forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == (if j < k { s[j] } else { diffs(s)[j] }) }
//@go tree/transparency.Tree.batchGetIndex
//@attr wrap
//@attr #[verifier::allow_complex_invariants]
pub fn tr_batchGetIndex(t: tr_Tree, labels: Slice<Slice<u8>>) -> (r: (Slice<Slice<u64>>, Option<GoErr>))
    ensures r.1.is_none() ==> r.0@.len() == labels@.len() && forall|i: int| 0 <= i < labels@.len() ==> decodes((#[trigger] r.0@[i])@, index_of(t.tx, labels@[i]@)),
//@loop 1
    invariant SEQ == rawIndices, IDX <= SEQ@.len(), rawIndices@.len() == labels@.len(), out@.len() == labels@.len(),
        forall|i: int| 0 <= i < labels@.len() ==> (#[trigger] rawIndices@[i])@ == index_of(t.tx, labels@[i]@),
        forall|i: int| 0 <= i < IDX ==> decodes((#[trigger] out@[i])@, index_of(t.tx, labels@[i]@)),
//@hint before loop 2
    proof { assert forall|ds: Seq<u64>| starts_with(raw@, ds) implies ds.take(0) =~= index@ && encd(#[trigger] ds.skip(0)) == buf@ by { assert(ds.skip(0) =~= ds); } }
//@loop 2
    invariant_except_break forall|ds: Seq<u64>| #[trigger] starts_with(raw@, ds) ==> index@.len() <= ds.len() && index@ == ds.take(index@.len() as int) && buf@ == encd(ds.skip(index@.len() as int)),
    ensures forall|ds: Seq<u64>| #[trigger] starts_with(raw@, ds) ==> index@ == ds,
    decreases buf@.len()
//@hint loop 2 top
    let ghost b0 = buf@; let ghost i0 = index@;
    proof {
        assert forall|ds: Seq<u64>| #[trigger] starts_with(raw@, ds) && b0.len() > 0 implies ds.len() > i0.len() && b0 == uv(ds[i0.len() as int] as int) + encd(ds.skip(i0.len() as int + 1)) by {
            let k = i0.len() as int; let d = ds.skip(k); assert(b0 == encd(d)); if d.len() > 0 { assert(d.skip(1) =~= ds.skip(k + 1)); assert(d[0] == ds[k]); } }
        assert forall|ds: Seq<u64>| #[trigger] starts_with(raw@, ds) && b0.len() == 0 implies i0 == ds by { encd_empty(ds.skip(i0.len() as int)); assert(ds.take(ds.len() as int) =~= ds); }
    }
//@hint loop 2 bottom
    proof { assert forall|ds: Seq<u64>| #[trigger] starts_with(raw@, ds) implies index@.len() <= ds.len() && index@ == ds.take(index@.len() as int) && buf@ == encd(ds.skip(index@.len() as int)) by {
        let k = i0.len() as int; assert(b0 == uv(ds[k] as int) + encd(ds.skip(k + 1))); assert(index@ =~= ds.take(k + 1)); } }
//@hint after loop 2
    proof { assert forall|s: Seq<u64>| nondecr(s) && raw@ == #[trigger] enc_index(s) implies partial(index@, s, 1) by { assert(starts_with(raw@, diffs(s))); } }
//@loop 3
    invariant 1 <= i, forall|s: Seq<u64>| nondecr(s) && raw@ == #[trigger] enc_index(s) ==> partial(index@, s, i as int),
    decreases index@.len() - i
//@hint after loop 3
    proof { assert forall|s: Seq<u64>| nondecr(s) && raw@ == #[trigger] enc_index(s) implies index@ =~= s by {} assert(decodes(index@, raw@)); }
//@end
// what was stored comes back
pub open spec fn decodes(idx: Seq<u64>, raw: Seq<u8>) -> bool { forall|s: Seq<u64>| nondecr(s) && raw == #[trigger] enc_index(s) ==> idx == s }
// C18: the position list that was stored is the one that is read
pub fn prop_index(t_r: &mut tr_Tree, label: Slice<u8>, index: Slice<u64>) {
    let mut t = *t_r;
    let e = tr_putIndex(&mut t, label, index);
    if e.is_none() {
        let mut ls: Slice<Slice<u8>> = Slice::empty(); ls = ls.push(label);
        let r = tr_batchGetIndex(t, ls);
        proof { assert(index_of(t.tx, label@) == enc_index(index@)); }
        if r.1.is_none() { assert(ls@[0] == label); assert(r.0@[0]@ == index@); }
    }
}
// ---- monitoring requests
pub open spec fn asc(s: Seq<st_MonitorMapEntry>, k: int) -> bool { forall|i: int, j: int| 0 <= i < j < k && j < s.len() ==> (#[trigger] s[i]).Position < (#[trigger] s[j]).Position && s[i].Version < s[j].Version }
// the entry names a version that exists, at a place where it may be monitored
pub open spec fn placed(e: st_MonitorMapEntry, index: Seq<u64>, n: u64) -> bool { e.Version < index.len() && (e.Position == index[e.Version as int] || ranc(e.Position as int, index[e.Version as int] as int, n as int)) }
pub open spec fn all_placed(s: Seq<st_MonitorMapEntry>, k: int, index: Seq<u64>, n: u64) -> bool { forall|i: int| 0 <= i < k ==> placed(#[trigger] s[i], index, n) }
pub open spec fn within(index: Seq<u64>, n: u64) -> bool { forall|i: int| 0 <= i < index.len() ==> #[trigger] index[i] < n }
pub open spec fn has_at(s: Seq<st_MonitorMapEntry>, k: int, x: u64, v: u32) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).Position == x && s[i].Version == v }
pub open spec fn is_map(s: Seq<st_MonitorMapEntry>, k: int, m: Map<u64, u32>) -> bool {
    &&& forall|i: int| 0 <= i < k ==> m.dom().contains((#[trigger] s[i]).Position) && m[s[i].Position] == s[i].Version
    &&& forall|x: u64| #[trigger] m.dom().contains(x) ==> has_at(s, k, x, m[x])
}
//@ext slices.Contains[Slice<u64>,u64]
pub fn slices_Contains_u64(s: Slice<u64>, x: u64) -> (r: bool) ensures r == s@.contains(x)
//@end
//@go tree/transparency.verifyEntries
pub fn tr_verifyEntries(entries: Slice<st_MonitorMapEntry>, index: Slice<u64>, n: u64) -> (r: (GoMap<u64, u32>, Option<GoErr>))
    requires within(index@, n)
    ensures r.1.is_none() == (asc(entries@, entries@.len() as int) && all_placed(entries@, entries@.len() as int, index@, n)),
        r.1.is_none() ==> !r.0.nil@ && is_map(entries@, entries@.len() as int, r.0@),
//@loop 1
    invariant 1 <= i, entries@.len() > 0 ==> i <= entries@.len(), asc(entries@, i as int),
    decreases entries@.len() - i
//@loop 2
    invariant SEQ == entries, IDX <= SEQ@.len(), within(index@, n), asc(entries@, entries@.len() as int), !ptrs.nil@, all_placed(entries@, IDX as int, index@, n), is_map(entries@, IDX as int, ptrs@),
//@hint loop 2 bottom
    proof {
        let k = IDX - 1; assert(entries@[k] == entry);
        assert forall|x: u64| #[trigger] ptrs@.dom().contains(x) implies has_at(entries@, IDX as int, x, ptrs@[x]) by { if x == entry.Position { assert(entries@[k].Position == x); } else { assert(has_at(entries@, k, x, ptrs@[x])); let i = choose|i: int| 0 <= i < k && (#[trigger] entries@[i]).Position == x && entries@[i].Version == ptrs@[x]; assert(0 <= i < IDX); } }
    }
//@end
//@ext slices.Sort[Slice<u32>]
pub fn slices_Sort_u32(v: &mut Slice<u32>)
    ensures forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j], final(v)@.len() == old(v)@.len(), final(v).nil == old(v).nil,
        forall|x: u32| final(v)@.contains(x) <==> old(v)@.contains(x), old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
//@end
// ---- what a new version is made of. The encodings are those of C14.
//@typemap tree/transparency/structs.Marshaller TBS
//@typemap func()~error Later Later::any()
//@nonnil tree/transparency/structs.VrfInput tree/transparency/structs.CommitmentValue tree/transparency/structs.OpeningAndValue tree/transparency/structs.PublicConfig
//@emit tree/transparency/structs.UpdateValue tree/transparency/structs.VrfInput tree/transparency/structs.CommitmentValue tree/transparency/structs.OpeningAndValue tree/prefix.Entry
pub struct TBS { pub b: Ghost<Seq<u8>> }
impl Clone for TBS { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TBS {}
pub uninterp spec fn enc_vi(label: Seq<u8>, ver: u32) -> Seq<u8>;
pub uninterp spec fn enc_cv(label: Seq<u8>, ver: u32, u: st_UpdateValue) -> Seq<u8>;
pub uninterp spec fn enc_ov(opening: Seq<u8>, u: st_UpdateValue) -> Seq<u8>;
#[verifier::external_body]
pub fn TBS_of_st_VrfInput(t: st_VrfInput) -> (r: TBS) ensures r.b@ == enc_vi(t.Label@, t.Version) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_CommitmentValue(t: st_CommitmentValue) -> (r: TBS) ensures r.b@ == enc_cv(t.Label@, t.Version, t.Update) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_OpeningAndValue(t: st_OpeningAndValue) -> (r: TBS) ensures r.b@ == enc_ov(t.Opening@, t.Value) { unimplemented!() }
//@ext tree/transparency/structs.Marshal
pub fn st_Marshal(t: TBS) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0@ == t.b@ && !r.0.nil@
//@end
//@ext tree/transparency/structs.NewOpeningAndValue
pub fn st_NewOpeningAndValue(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_OpeningAndValue, Option<GoErr>)) ensures r.1.is_none() && final(buf_r)@.len() == 0 ==> old(buf_r)@ == enc_ov(r.0.Opening@, r.0.Value)
//@end
// C20
pub uninterp spec fn opening_size(cs: Suite) -> int;
pub uninterp spec fn commitment(cs: Suite, opening: Seq<u8>, body: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn vrf_out(k: VrfKey, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn vrf_ok(k: VrfPub, m: Seq<u8>, proof_: Seq<u8>, out: Seq<u8>) -> bool;
pub uninterp spec fn vrf_pub(k: VrfKey) -> VrfPub;
//@ext crypto/suites.CipherSuite.CommitmentOpeningSize
pub fn suite_OpeningSize(cs: Suite) -> (r: i64) ensures r == opening_size(cs), 0 <= r <= 0xffff
//@end
//@ext crypto/commitments.GenerateOpening
pub fn cm_GenerateOpening(cs: Suite) -> (r: Slice<u8>) ensures r@.len() == opening_size(cs)
//@end
//@ext crypto/commitments.Commit
pub fn cm_Commit(cs: Suite, opening: Slice<u8>, body: Slice<u8>) -> (r: Slice<u8>) ensures r@ == commitment(cs, opening@, body@)
//@end
//@ext crypto/vrf.PrivateKey.Prove
pub fn vk_Prove(k: VrfKey, m: Slice<u8>) -> (r: (Slice<u8>, Slice<u8>)) ensures r.0@ == vrf_out(k, m@), vrf_ok(vrf_pub(k), m@, r.1@, r.0@)
//@end
//@ext crypto/vrf.PrivateKey.PublicKey
pub fn vk_PublicKey(k: VrfKey) -> (r: VrfPub) ensures r == vrf_pub(k)
//@end
//@ext db.TransparencyStore.GetVersion
pub fn ts_GetVersion(d: DB, label: Slice<u8>, ver: u32) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() ==> r.0.nil@ == !d.vers@.dom().contains((label@, ver)) && (!r.0.nil@ ==> r.0@ == d.vers@[(label@, ver)])
//@end
//@go tree/transparency/structs.PrivateConfig.Public
pub fn pc_Public(pc: st_PrivateConfig) -> (r: st_PublicConfig) ensures r.Config == pc.Config, r.SignatureKey == key_pub(pc.SignatureKey.id@), r.VrfKey == vrf_pub(pc.VrfKey)
//@end
//@go tree/transparency.Tree.computeVrfOutput
pub fn tr_computeVrfOutput(t: tr_Tree, label: Slice<u8>, ver: u32) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>))
    ensures r.2.is_none() ==> r.0@ == vrf_out(t.config.VrfKey, enc_vi(label@, ver)) && vrf_ok(vrf_pub(t.config.VrfKey), enc_vi(label@, ver), r.1@, r.0@)
//@end
// the commitment and the stored data are to one opening, of this label, version and value
pub open spec fn new_version(cs: Suite, label: Seq<u8>, ver: u32, value: st_UpdateValue, c: Seq<u8>, raw: Seq<u8>) -> bool {
    exists|o: Seq<u8>| o.len() == opening_size(cs) && c == #[trigger] commitment(cs, o, enc_cv(label, ver, value)) && raw == enc_ov(o, value)
}
//@go tree/transparency.Tree.newVersion
pub fn tr_newVersion(t: tr_Tree, label: Slice<u8>, ver: u32, value: st_UpdateValue) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>))
    ensures r.2.is_none() ==> new_version(t.config.Config.Suite, label@, ver, value, r.0@, r.1@)
//@end
//@go tree/transparency.Tree.getVersion
pub fn tr_getVersion(t: tr_Tree, label: Slice<u8>, ver: u32) -> (r: (st_OpeningAndValue, Option<GoErr>))
    ensures r.1.is_none() ==> if t.tx.vers@.dom().contains((label@, ver)) { t.tx.vers@[(label@, ver)] == enc_ov(r.0.Opening@, r.0.Value) } else { r.0.Opening@.len() == opening_size(t.config.Config.Suite) }
//@end
// ---- mutations: the database writes that are put off
pub enum Act { PutVersion(Seq<u8>, u32, Seq<u8>), DeleteVersion(Seq<u8>, u32), PutIndex(Seq<u8>, Seq<u64>), DeleteIndex(Seq<u8>) }
pub struct Later { pub a: Ghost<Act> }
impl Clone for Later { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Later {}
impl Later { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
//@ext db.TransparencyStore.PutVersion@later
pub fn later_PutVersion(label: Slice<u8>, ver: u32, data: Slice<u8>) -> (r: Later) ensures r.a@ == Act::PutVersion(label@, ver, data@)
//@end
//@ext db.TransparencyStore.DeleteVersion@later
pub fn later_DeleteVersion(label: Slice<u8>, ver: u32) -> (r: Later) ensures r.a@ == Act::DeleteVersion(label@, ver)
//@end
//@ext db.TransparencyStore.DeleteIndex@later
pub fn later_DeleteIndex(label: Slice<u8>) -> (r: Later) ensures r.a@ == Act::DeleteIndex(label@)
//@end
//@ext tree/transparency.Tree.putIndex@later
pub fn later_putIndex(label: Slice<u8>, index: Slice<u64>) -> (r: Later) ensures r.a@ == Act::PutIndex(label@, index@)
//@end
pub open spec fn removed(m: tr_labelMutation) -> bool { m.remove && m.index@.len() > 0 }
// what the versions are counted from
pub open spec fn base_index(m: tr_labelMutation) -> Seq<u64> { if removed(m) { Seq::empty() } else { m.index@ } }
pub open spec fn rem_acts(m: tr_labelMutation) -> nat { if removed(m) { (m.index@.len() + 1) as nat } else { 0 } }
pub open spec fn with_new(s: Seq<u64>, n: u64, k: int) -> Seq<u64> { s + Seq::new(k as nat, |i: int| n) }
// the label's index, versions and entries are to be removed: the first k of them
pub open spec fn is_removal(t: tr_Tree, m: tr_labelMutation, k: int, w: Seq<Later>, rem: Seq<Slice<u8>>) -> bool {
    &&& w.len() > k && rem.len() >= k && w[0].a@ == Act::DeleteIndex(m.label@)
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] w[i + 1]).a@ == Act::DeleteVersion(m.label@, i as u32)
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] rem[i])@ == vrf_out(t.config.VrfKey, enc_vi(m.label@, i as u32))
}
pub open spec fn is_version(t: tr_Tree, p: tr_LabelValue, ver: u32, w: Act, e: px_Entry) -> bool {
    e.VrfOutput@ == vrf_out(t.config.VrfKey, enc_vi(p.Label@, ver)) && match w { Act::PutVersion(l, v, raw) => l == p.Label@ && v == ver && new_version(t.config.Config.Suite, l, v, p.Value, e.Commitment@, raw), _ => false }
}
// the first k new values get the next k versions
pub open spec fn is_addition(t: tr_Tree, m: tr_labelMutation, k: int, w: Seq<Later>, add: Seq<px_Entry>) -> bool {
    &&& w.len() >= rem_acts(m) + k && add.len() == k
    &&& forall|i: int| 0 <= i < k ==> is_version(t, #[trigger] m.add@[i], (base_index(m).len() + i) as u32, w[rem_acts(m) + i].a@, add[i])
}
pub open spec fn label_done(t: tr_Tree, n: u64, m: tr_labelMutation, w: Seq<Later>, add: Seq<px_Entry>, rem: Seq<Slice<u8>>) -> bool {
    let k = m.add@.len() as int;
    &&& (removed(m) ==> is_removal(t, m, m.index@.len() as int, w, rem) && rem.len() == m.index@.len()) && (!removed(m) ==> rem.len() == 0)
    &&& is_addition(t, m, k, w, add)
    &&& w.len() == rem_acts(m) + k + (if k > 0 { 1int } else { 0 })
    &&& k > 0 ==> w.last().a@ == Act::PutIndex(m.add@[0].Label@, with_new(base_index(m), n, k))
}
//@go tree/transparency.Tree.mutateLabel
pub fn tr_mutateLabel(t: tr_Tree, n: u64, prevDLE: Option<u64>, mut_: tr_labelMutation) -> (r: (Slice<px_Entry>, Slice<Slice<u8>>, Slice<Later>, Option<GoErr>))
    requires mut_.index@.len() + mut_.add@.len() < 0x1_0000_0000
    ensures r.3.is_none() ==> label_done(t, n, mut_, r.2@, r.0@, r.1@),
        // a label that changed since the last distinguished entry stays
        r.3.is_none() && removed(mut_) ==> prevDLE.is_some() && mut_.index@.last() <= prevDLE.unwrap(),
//@hint entry
    let ghost mut w0 = Seq::<Later>::empty(); let ghost mut w2 = w0;
//@loop 1
    invariant SEQ == mut_.index, mut_.index@.len() + mut_.add@.len() < 0x1_0000_0000, label == mut_.label, removed(mut_), is_removal(t, mut_, IDX as int, writes@, remove@), writes@.len() == IDX + 1, remove@.len() == IDX, index == mut_.index, add@.len() == 0
//@hint before loop 2
    proof { w0 = writes@; assert(index@ =~= base_index(mut_)); assert(index@ =~= with_new(base_index(mut_), n, 0)); }
//@hint loop 2 top
    let ghost w1 = writes@; let ghost a1 = add@;
//@loop 2
    invariant SEQ == mut_.add, mut_.index@.len() + mut_.add@.len() < 0x1_0000_0000, IDX <= SEQ@.len(), is_addition(t, mut_, IDX as int, writes@, add@), writes@.len() == rem_acts(mut_) + IDX, index@ == with_new(base_index(mut_), n, IDX as int),
        w0.len() == rem_acts(mut_), writes@.subrange(0, w0.len() as int) == w0,
        removed(mut_) ==> is_removal(t, mut_, mut_.index@.len() as int, w0, remove@) && remove@.len() == mut_.index@.len(), !removed(mut_) ==> remove@.len() == 0,
//@hint loop 2 bottom
    proof { let k = IDX - 1; assert(index@ =~= with_new(base_index(mut_), n, k + 1)); assert(writes@.subrange(0, w0.len() as int) =~= w0);
        assert(is_version(t, mut_.add@[k], (base_index(mut_).len() + k) as u32, writes@[rem_acts(mut_) + k].a@, add@[k]));
        assert forall|i: int| 0 <= i < k + 1 implies is_version(t, #[trigger] mut_.add@[i], (base_index(mut_).len() + i) as u32, writes@[rem_acts(mut_) + i].a@, add@[i]) by { if i < k { assert(writes@[rem_acts(mut_) + i] == w1[rem_acts(mut_) + i]); assert(add@[i] == a1[i]); } } }
//@hint after loop 2
    proof { w2 = writes@; }
//@hint return 5
    proof { assert forall|i: int| 0 <= i < w2.len() implies #[trigger] writes@[i] == w2[i] by {}
        assert forall|i: int| 0 <= i < w0.len() implies #[trigger] writes@[i] == w0[i] by { assert(w2.subrange(0, w0.len() as int)[i] == w0[i]); assert(writes@[i] == w2[i]); }
        assert(is_addition(t, mut_, mut_.add@.len() as int, writes@, add@));
        if removed(mut_) { assert(is_removal(t, mut_, mut_.index@.len() as int, writes@, remove@)) by { assert forall|i: int| 0 <= i < mut_.index@.len() implies (#[trigger] writes@[i + 1]).a@ == Act::DeleteVersion(mut_.label@, i as u32) by { assert(writes@[i + 1] == w0[i + 1]); } } } }
//@end
