//@use keys.vrs
// ---- C21: managed logs
//@nonnil tree/transparency/managed.ManagedLog db/memory.ManagedLogStore tree/transparency/structs.UpdateRequest tree/transparency/structs.ManagerUpdateRequest tree/transparency/structs.UpdateTBS
//@typemap tree/transparency/wire.ManagerInterface Manager Manager::any()
//@typemap db.ManagedLogStore VersionStore VersionStore::any()
//@typemap <-chan~tree/transparency/wire.UpdateResponse UpdateChan UpdateChan{}
//@typemap tree/transparency/structs.Marshaller TBS
// The third-party manager: the requests it was given.
pub struct Manager { pub sent: Ghost<Seq<st_ManagerUpdateRequest>> }
impl Clone for Manager { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Manager {}
impl Manager { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
// The version store: next[label] is the next version to be handed out.
pub struct VersionStore { pub next: Ghost<Map<Seq<u8>, int>> }
impl Clone for VersionStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for VersionStore {}
impl VersionStore { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub open spec fn next_of(m: Map<Seq<u8>, int>, l: Seq<u8>) -> int { if m.dom().contains(l) { m[l] } else { 0 } }
pub struct UpdateChan {}
impl Clone for UpdateChan { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for UpdateChan {}
// What is signed.
pub struct TBS { pub b: Ghost<Seq<u8>> }
impl Clone for TBS { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TBS {}
pub uninterp spec fn enc_tbs(c: st_PublicConfig, label: Seq<u8>, version: u32, value: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn TBS_of_st_UpdateTBS(t: st_UpdateTBS) -> (r: TBS) ensures r.b@ == enc_tbs(t.Config, t.Label@, t.Version, t.Value@) { unimplemented!() }
//@ext tree/transparency/structs.Marshal
pub fn st_Marshal(t: TBS) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0@ == t.b@
//@end
// Trusted: the store hands out consecutive numbers and keeps them (the
// in-memory store below is verified against the same statement).
//@ext db.ManagedLogStore.IncrementGreatestVersion
pub fn vs_Increment(s: &mut VersionStore, label: Slice<u8>, count: i64) -> (r: (i64, Option<GoErr>))
    requires count >= 0
    ensures r.1.is_none() ==> r.0 == next_of(old(s).next@, label@) - 1 && final(s).next@ == old(s).next@.insert(label@, next_of(old(s).next@, label@) + count) && -1 <= r.0 < 0x4000_0000_0000_0000,
        r.1.is_some() ==> final(s).next == old(s).next || final(s).next@ == old(s).next@.insert(label@, next_of(old(s).next@, label@) + count)
//@end
//@ext tree/transparency/wire.ManagerInterface.ManagerUpdate
pub fn mgr_Update(m: &mut Manager, ctx: Ctx, req: st_ManagerUpdateRequest) -> (r: (UpdateChan, Option<GoErr>)) ensures final(m).sent@ == old(m).sent@.push(req)
//@end

// One signed version.
pub struct Rec { pub label: Seq<u8>, pub ver: int, pub value: Seq<u8> }
pub open spec fn rec_bytes(c: st_PublicConfig, r: Rec) -> Seq<u8> { enc_tbs(c, r.label, r.ver as u32, r.value) }
pub open spec fn new_recs(label: Seq<u8>, first: int, vals: Seq<st_LabelValue>, k: int) -> Seq<Rec> {
    Seq::new(k as nat, |i: int| Rec { label: label, ver: first + i, value: vals[i].Value@ })
}
pub open spec fn enc_recs(c: st_PublicConfig, rs: Seq<Rec>) -> Seq<Seq<u8>> { Seq::new(rs.len(), |i: int| rec_bytes(c, rs[i])) }
// every signature covers exactly the label, version and value submitted
pub open spec fn signed_ok(ml: mg_ManagedLog, label: Seq<u8>, first: int, vals: Seq<st_LabelValue>, out: Seq<st_UpdateValue>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> (#[trigger] out[i]).Value@ == vals[i].Value@ && sig_ok(key_pub(ml.priv_.id@), enc_tbs(ml.config, label, (first + i) as u32, vals[i].Value@), out[i].UpdateSuffix.Signature@)
}
pub open spec fn update_step(a: mg_ManagedLog, b: mg_ManagedLog, label: Seq<u8>, vals: Seq<st_LabelValue>, k: int) -> bool {
    let first = next_of(a.tx.next@, label);
    &&& b.config == a.config && b.priv_.id == a.priv_.id
    &&& 0 <= k <= vals.len() && (k > 0 ==> first + vals.len() <= 0x1_0000_0000)
    &&& b.priv_.trace@ == a.priv_.trace@ + enc_recs(a.config, new_recs(label, first, vals, k))
    &&& b.tx.next@ == a.tx.next@.insert(label, first + vals.len()) || (k == 0 && b.tx.next@ == a.tx.next@)
}

//@go tree/transparency/managed.ManagedLog.Update
pub fn mg_Update(ml_r: &mut mg_ManagedLog, ctx: Ctx, req: st_UpdateRequest) -> (r: (UpdateChan, Option<GoErr>))
    requires req.Values@.len() < 0x1000_0000_0000
    ensures
        exists|k: int| update_step(*old(ml_r), *final(ml_r), req.Label@, req.Values@, k) && (final(ml_r).log.sent@ != old(ml_r).log.sent@ ==> k == req.Values@.len()),
        final(ml_r).log.sent@ == old(ml_r).log.sent@ || ({
            let m = final(ml_r).log.sent@.last(); let first = next_of(old(ml_r).tx.next@, req.Label@);
            &&& final(ml_r).log.sent@ == old(ml_r).log.sent@.push(m)
            &&& m.Label@ == req.Label@ && m.Last == req.Last && m.GreatestVersion == req.GreatestVersion
            &&& m.SignedVersion as int == first % 0x1_0000_0000 && (req.Values@.len() > 0 ==> m.SignedVersion == first)
            &&& m.Values@.len() == req.Values@.len()
            &&& signed_ok(*old(ml_r), req.Label@, first, req.Values@, m.Values@, req.Values@.len() as int) }),
        r.1.is_none() ==> final(ml_r).log.sent@ != old(ml_r).log.sent@,
//@hint entry
    let ghost first = next_of(ml.tx.next@, req.Label@);
    let ghost ml0 = ml;
    proof { assert(enc_recs(ml.config, new_recs(req.Label@, first, req.Values@, 0)) =~= Seq::empty()); assert(ml.priv_.trace@ + Seq::<Seq<u8>>::empty() =~= ml.priv_.trace@); }
//@hint after call vs_Increment 1
    proof { assert(update_step(ml0, ml, req.Label@, req.Values@, 0)); }
//@loop 1
    invariant prev == first - 1, -1 <= prev, prev + req.Values@.len() <= u32::MAX, SEQ == req.Values, values@.len() == req.Values@.len(), ml.config == ml0.config, ml.priv_.id == ml0.priv_.id,
        first + req.Values@.len() <= 0x1_0000_0000, ml.log == ml0.log,
        ml.tx.next@ == ml0.tx.next@.insert(req.Label@, first + req.Values@.len()),
        ml.priv_.trace@ =~= ml0.priv_.trace@ + enc_recs(ml0.config, new_recs(req.Label@, first, req.Values@, IDX as int)),
        signed_ok(ml0, req.Label@, first, req.Values@, values@, IDX as int),
        update_step(ml0, ml, req.Label@, req.Values@, IDX as int),
    decreases SEQ@.len() - IDX
//@hint after call sk_Sign 1
    proof { assert(enc_recs(ml0.config, new_recs(req.Label@, first, req.Values@, IDX1 as int)) =~= enc_recs(ml0.config, new_recs(req.Label@, first, req.Values@, IDX1 - 1)).push(rec_bytes(ml0.config, Rec { label: req.Label@, ver: prev + 1 + i, value: val.Value@ })));
        assert(ml.priv_.trace@ =~= ml0.priv_.trace@ + enc_recs(ml0.config, new_recs(req.Label@, first, req.Values@, IDX1 as int)));
        assert(update_step(ml0, ml, req.Label@, req.Values@, IDX1 as int)); }
//@hint after call mgr_Update 1
    proof { assert(update_step(ml0, ml, req.Label@, req.Values@, req.Values@.len() as int)); }
//@end

// C21 across any sequence of updates: whatever was signed, two signed records
// of one label have different versions, increasing in signing order, all below
// the counter.
pub open spec fn recs_ok(rs: Seq<Rec>, next: Map<Seq<u8>, int>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() && rs[i].label == rs[j].label ==> rs[i].ver < rs[j].ver
    &&& forall|i: int| 0 <= i < rs.len() ==> 0 <= (#[trigger] rs[i]).ver < next_of(next, rs[i].label) && rs[i].ver <= u32::MAX
    &&& forall|l: Seq<u8>| next_of(next, l) >= 0
}
pub proof fn prop_managed_once(a: mg_ManagedLog, b: mg_ManagedLog, label: Seq<u8>, vals: Seq<st_LabelValue>, k: int, rs: Seq<Rec>)
    requires update_step(a, b, label, vals, k), recs_ok(rs, a.tx.next@), a.priv_.trace@ == enc_recs(a.config, rs)
    ensures ({ let rt = rs + new_recs(label, next_of(a.tx.next@, label), vals, k); recs_ok(rt, b.tx.next@) && b.priv_.trace@ == enc_recs(b.config, rt) })
{
    let n = new_recs(label, next_of(a.tx.next@, label), vals, k);
    let rt = rs + n;
    assert(enc_recs(b.config, rt) =~= enc_recs(a.config, rs) + enc_recs(a.config, n));
    assert forall|l: Seq<u8>| next_of(b.tx.next@, l) >= next_of(a.tx.next@, l) by {};
    assert forall|i: int| 0 <= i < rt.len() implies 0 <= (#[trigger] rt[i]).ver < next_of(b.tx.next@, rt[i].label) && rt[i].ver <= u32::MAX by { if i < rs.len() { assert(rt[i] == rs[i]); } else { assert(rt[i] == n[i - rs.len()]); } };
    assert forall|i: int, j: int| 0 <= i < j < rt.len() && rt[i].label == rt[j].label implies rt[i].ver < rt[j].ver by {
        if j < rs.len() {} else if i >= rs.len() { assert(rt[i] == n[i - rs.len()] && rt[j] == n[j - rs.len()]); } else { assert(rt[j] == n[j - rs.len()]); assert(rt[i] == rs[i]); }
    };
}
// C21: and none is skipped: when nothing fails, the versions of one update
// continue exactly where the previous update of that label ended.
pub proof fn prop_managed_consecutive(a: mg_ManagedLog, b: mg_ManagedLog, label: Seq<u8>, vals: Seq<st_LabelValue>, k: int)
    requires update_step(a, b, label, vals, k), k == vals.len(), k > 0
    ensures next_of(b.tx.next@, label) == next_of(a.tx.next@, label) + vals.len(),
        forall|l: Seq<u8>| l != label ==> next_of(b.tx.next@, l) == next_of(a.tx.next@, l),
        new_recs(label, next_of(a.tx.next@, label), vals, k)[0].ver == next_of(a.tx.next@, label),
        new_recs(label, next_of(a.tx.next@, label), vals, k)[k - 1].ver == next_of(b.tx.next@, label) - 1
{ }

//@go tree/transparency/managed.NewManagedLog
pub fn mg_New(config: st_PublicConfig, log: Manager, tx: VersionStore, priv_: SignKey) -> (r: (mg_ManagedLog, Option<GoErr>))
    ensures r.1.is_none() <==> config.Config.Mode == 2u8 && !config.Config.LeafPublicKey.nil@ && key_bytes(config.Config.LeafPublicKey) == key_bytes(key_pub(priv_.id@)),
//@end

// The in-memory store.
pub open spec fn hexed(k: Str, l: Seq<u8>) -> bool { k.s@ == hex(l) }
pub uninterp spec fn hex(b: Seq<u8>) -> Seq<u8>;
//@ext fmt.Sprintf|%x
pub fn fmt_hex(b: Slice<u8>) -> (r: Str) ensures r.s@ == hex(b@)
//@end
//@go db/memory.ManagedLogStore.IncrementGreatestVersion
pub fn dm_Increment(mls_r: &mut dm_ManagedLogStore, label: Slice<u8>, count: i64) -> (r: (i64, Option<GoErr>))
    requires !old(mls_r).Data.nil@, 0 <= count < 0x4000_0000_0000_0000, forall|k: Str| old(mls_r).Data@.dom().contains(k) ==> -1 <= #[trigger] old(mls_r).Data@[k] < 0x4000_0000_0000_0000
    ensures r.1.is_none(), exists|k: Str| #[trigger] hexed(k, label@) && r.0 == (if old(mls_r).Data@.dom().contains(k) { old(mls_r).Data@[k] as int } else { -1 }) && final(mls_r).Data@ == old(mls_r).Data@.insert(k, (r.0 + count) as i64), !final(mls_r).Data.nil@
//@hint after call fmt_hex 1
    proof { assert(hexed(RES, label@)); }
//@end
