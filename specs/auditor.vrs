//@import dist.vrs logappend.vrs leafonly.vrs psr.vrs buf.vrs
//@use cmp.vrs
//@nonnil tree/transparency/auditor.Auditor tree/transparency/auditor.InsertedVrfOutput tree/prefix.Entry tree/prefix.PrefixProof tree/transparency/structs.AuditorUpdate tree/transparency/structs.AuditorTreeHeadTBS
//@typemap db.AuditorStore AuStore AuStore::any()
//@typemap tree/transparency/structs.Marshaller TBS
// ---- C17: the auditor
// What the auditor's database holds.
pub struct AuStore { pub data: Ghost<Option<Seq<u8>>> }
impl Clone for AuStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AuStore {}
impl AuStore { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
// Trusted: the database returns what was stored last (C19).
//@ext db.AuditorStore.GetState
pub fn aus_Get(s: AuStore) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> (match s.data@ { None => r.0.nil@, Some(b) => !r.0.nil@ && r.0@ == b })
//@end
//@ext db.AuditorStore.PutState
pub fn aus_Put(s: &mut AuStore, raw: Slice<u8>) -> (r: Option<GoErr>) ensures final(s).data@ == Some(raw@) || r.is_some() && final(s).data == old(s).data
//@end
// What is signed: the encodings of C14.
pub struct TBS { pub b: Ghost<Seq<u8>> }
impl Clone for TBS { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TBS {}
pub uninterp spec fn enc_ath(c: st_PublicConfig, ts: u64, n: u64, root: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn TBS_of_st_AuditorTreeHeadTBS(t: st_AuditorTreeHeadTBS) -> (r: TBS) ensures r.b@ == enc_ath(t.Config, t.Timestamp, t.TreeSize, t.Root@) { unimplemented!() }
//@ext tree/transparency/structs.Marshal
pub fn st_Marshal(t: TBS) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0@ == t.b@
//@end
// b encodes the state (C14)
pub uninterp spec fn state_bytes(cs: Suite, b: Seq<u8>, x: au_AuditorState, rest: Seq<u8>) -> bool;
//@ext tree/transparency/auditor.AuditorState.Marshal
pub fn au_StateMarshal(x: Option<au_AuditorState>) -> (r: (Slice<u8>, Option<GoErr>)) requires x.is_some() ensures r.1.is_none() ==> forall|cs: Suite| #[trigger] state_bytes(cs, r.0@, x.unwrap(), Seq::empty())
//@end
//@ext tree/transparency/auditor.NewAuditorState
pub fn au_NewAuditorState(cs: Suite, buf_r: &mut Buf) -> (r: (Option<au_AuditorState>, Option<GoErr>)) ensures r.1.is_none() ==> r.0.is_some() && state_bytes(cs, old(buf_r)@, r.0.unwrap(), final(buf_r)@)
//@end
// the prefix tree roots before and after the update (C06, C07)
pub uninterp spec fn before_after(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, p: px_PrefixProof, before: Seq<u8>, after: Seq<u8>) -> bool;
//@ext tree/prefix.EvaluateBeforeAfter
pub fn px_EvaluateBeforeAfter(cs: Suite, add: Slice<px_Entry>, remove: Slice<px_Entry>, proof_: px_PrefixProof) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>))
    ensures r.2.is_none() ==> before_after(cs, add@, remove@, proof_, r.0@, r.1@)
//@end

pub open spec fn by_vrf(s: Seq<au_InsertedVrfOutput>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i].VrfOutput@, #[trigger] s[j].VrfOutput@) }
// strictly sorted: ordered and without duplicates
pub open spec fn entries_sorted(s: Seq<px_Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i].VrfOutput@, #[trigger] s[j].VrfOutput@) }
pub proof fn adjacent_sorted(s: Seq<px_Entry>) requires forall|i: int| 0 <= i < s.len() - 1 ==> lt(#[trigger] s[i].VrfOutput@, s[i + 1].VrfOutput@) ensures entries_sorted(s)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i].VrfOutput@, #[trigger] s[j].VrfOutput@) by { adjacent_lt(s, i, j); } }
pub proof fn adjacent_lt(s: Seq<px_Entry>, i: int, j: int) requires 0 <= i < j < s.len(), forall|i: int| 0 <= i < s.len() - 1 ==> lt(#[trigger] s[i].VrfOutput@, s[i + 1].VrfOutput@) ensures lt(s[i].VrfOutput@, s[j].VrfOutput@) decreases j - i
{ if i + 1 < j { adjacent_lt(s, i + 1, j); cmp_trans(s[i].VrfOutput@, s[i + 1].VrfOutput@, s[j].VrfOutput@); } }

//@go tree/transparency/auditor.compareEntry
pub fn au_compareEntry(a: px_Entry, b: px_Entry) -> (r: i64) ensures r == cmp(a.VrfOutput@, b.VrfOutput@)
//@end
//@go tree/transparency/auditor.compareInserted
pub fn au_compareInserted(a: au_InsertedVrfOutput, b: au_InsertedVrfOutput) -> (r: i64) ensures r == cmp(a.VrfOutput@, b.VrfOutput@)
//@end
//@ext slices.BinarySearchFunc#compareInserted
pub fn slices_BSF(s: Slice<au_InsertedVrfOutput>, target: au_InsertedVrfOutput) -> (r: (i64, bool))
    requires by_vrf(s@)
    ensures 0 <= r.0 <= s@.len(), r.1 ==> r.0 < s@.len() && cmp(s@[r.0 as int].VrfOutput@, target.VrfOutput@) == 0,
        !r.1 ==> forall|i: int| 0 <= i < s@.len() ==> cmp(#[trigger] s@[i].VrfOutput@, target.VrfOutput@) != 0
//@end

// ---- the recently inserted VRF outputs
pub open spec fn after(p: int, r: Option<u64>) -> bool { match r { None => true, Some(x) => p > x } }
// an insertion in b after r replaces e
pub open spec fn replaced(e: au_InsertedVrfOutput, b: Seq<au_InsertedVrfOutput>, r: Option<u64>) -> bool { exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).VrfOutput@ == e.VrfOutput@ && after(b[j].Pos as int, r) }
pub open spec fn merged(a: Seq<au_InsertedVrfOutput>, b: Seq<au_InsertedVrfOutput>, r: Option<u64>, i: int, j: int, out: Seq<au_InsertedVrfOutput>) -> bool {
    &&& forall|k: int| 0 <= k < out.len() ==> after((#[trigger] out[k]).Pos as int, r) && (b.subrange(0, j).contains(out[k]) || a.subrange(0, i).contains(out[k]) && !replaced(out[k], b, r))
    &&& forall|k: int| 0 <= k < i ==> after((#[trigger] a[k]).Pos as int, r) && !replaced(a[k], b, r) ==> out.contains(a[k])
    &&& forall|k: int| 0 <= k < j ==> after((#[trigger] b[k]).Pos as int, r) ==> out.contains(b[k])
}
pub open spec fn below(out: Seq<au_InsertedVrfOutput>, v: Seq<u8>) -> bool { forall|k: int| 0 <= k < out.len() ==> lt((#[trigger] out[k]).VrfOutput@, v) }
pub open spec fn all_below(out: Seq<au_InsertedVrfOutput>, s: Seq<au_InsertedVrfOutput>, i: int) -> bool { forall|k: int| i <= k < s.len() ==> below(out, (#[trigger] s[k]).VrfOutput@) }
pub proof fn merge_step_a(a: Seq<au_InsertedVrfOutput>, b: Seq<au_InsertedVrfOutput>, r: Option<u64>, i: int, j: int, out: Seq<au_InsertedVrfOutput>, o2: Seq<au_InsertedVrfOutput>)
    requires 0 <= i < a.len(), 0 <= j <= b.len(), merged(a, b, r, i, j, out), by_vrf(a), by_vrf(b), by_vrf(out), all_below(out, a, i), all_below(out, b, j),
        o2 == out && (!after(a[i].Pos as int, r) || replaced(a[i], b, r)) || o2 == out.push(a[i]) && after(a[i].Pos as int, r) && (j < b.len() ==> lt(a[i].VrfOutput@, b[j].VrfOutput@))
    ensures merged(a, b, r, i + 1, j, o2), by_vrf(o2), all_below(o2, a, i + 1), all_below(o2, b, j)
{
    assert(a.subrange(0, i + 1) =~= a.subrange(0, i).push(a[i]));
    assert forall|e: au_InsertedVrfOutput| a.subrange(0, i).contains(e) implies a.subrange(0, i + 1).contains(e) by { let k = choose|k: int| 0 <= k < i && a.subrange(0, i)[k] == e; assert(a.subrange(0, i + 1)[k] == e); }
    if o2 != out {
        assert(below(out, a[i].VrfOutput@));
        assert(a.subrange(0, i + 1)[i] == a[i]);
        assert(o2[out.len() as int] == a[i]);
        if replaced(a[i], b, r) {
            let q = choose|q: int| 0 <= q < b.len() && (#[trigger] b[q]).VrfOutput@ == a[i].VrfOutput@ && after(b[q].Pos as int, r);
            cmp_vals(a[i].VrfOutput@, b[q].VrfOutput@);
            if q < j { assert(out.contains(b[q])); let k = choose|k: int| 0 <= k < out.len() && out[k] == b[q]; assert(lt(out[k].VrfOutput@, a[i].VrfOutput@)); }
            else if q > j { cmp_trans(a[i].VrfOutput@, b[j].VrfOutput@, b[q].VrfOutput@); }
            assert(false);
        }
        assert forall|k: int| 0 <= k < i && after((#[trigger] a[k]).Pos as int, r) && !replaced(a[k], b, r) implies o2.contains(a[k]) by { let m = choose|m: int| 0 <= m < out.len() && out[m] == a[k]; assert(o2[m] == a[k]); }
        assert forall|k: int| 0 <= k < j && after((#[trigger] b[k]).Pos as int, r) implies o2.contains(b[k]) by { let m = choose|m: int| 0 <= m < out.len() && out[m] == b[k]; assert(o2[m] == b[k]); }
        assert forall|k: int| j <= k < b.len() implies below(o2, (#[trigger] b[k]).VrfOutput@) by { assert(below(out, b[k].VrfOutput@)); if k > j { cmp_trans(a[i].VrfOutput@, b[j].VrfOutput@, b[k].VrfOutput@); } }
        assert forall|k: int| i + 1 <= k < a.len() implies below(o2, (#[trigger] a[k]).VrfOutput@) by { assert(below(out, a[k].VrfOutput@)); }
    }
}
pub proof fn merge_step_b(a: Seq<au_InsertedVrfOutput>, b: Seq<au_InsertedVrfOutput>, r: Option<u64>, i: int, j: int, out: Seq<au_InsertedVrfOutput>, o2: Seq<au_InsertedVrfOutput>)
    requires 0 <= i <= a.len(), 0 <= j < b.len(), merged(a, b, r, i, j, out), by_vrf(a), by_vrf(b), by_vrf(out), all_below(out, a, i), all_below(out, b, j),
        o2 == out && !after(b[j].Pos as int, r) || o2 == out.push(b[j]) && after(b[j].Pos as int, r) && (i < a.len() ==> lt(b[j].VrfOutput@, a[i].VrfOutput@))
    ensures merged(a, b, r, i, j + 1, o2), by_vrf(o2), all_below(o2, a, i), all_below(o2, b, j + 1)
{
    assert(b.subrange(0, j + 1) =~= b.subrange(0, j).push(b[j]));
    assert forall|e: au_InsertedVrfOutput| b.subrange(0, j).contains(e) implies b.subrange(0, j + 1).contains(e) by { let k = choose|k: int| 0 <= k < j && b.subrange(0, j)[k] == e; assert(b.subrange(0, j + 1)[k] == e); }
    if o2 != out {
        assert(below(out, b[j].VrfOutput@));
        assert(b.subrange(0, j + 1)[j] == b[j]);
        assert(o2[out.len() as int] == b[j]);
        assert forall|k: int| 0 <= k < i && after((#[trigger] a[k]).Pos as int, r) && !replaced(a[k], b, r) implies o2.contains(a[k]) by { let m = choose|m: int| 0 <= m < out.len() && out[m] == a[k]; assert(o2[m] == a[k]); }
        assert forall|k: int| 0 <= k < j && after((#[trigger] b[k]).Pos as int, r) implies o2.contains(b[k]) by { let m = choose|m: int| 0 <= m < out.len() && out[m] == b[k]; assert(o2[m] == b[k]); }
        assert forall|k: int| i <= k < a.len() implies below(o2, (#[trigger] a[k]).VrfOutput@) by { assert(below(out, a[k].VrfOutput@)); if k > i { cmp_trans(b[j].VrfOutput@, a[i].VrfOutput@, a[k].VrfOutput@); } }
        assert forall|k: int| j + 1 <= k < b.len() implies below(o2, (#[trigger] b[k]).VrfOutput@) by { assert(below(out, b[k].VrfOutput@)); }
    }
}
// both at once: equal VRF outputs
pub proof fn merge_step_ab(a: Seq<au_InsertedVrfOutput>, b: Seq<au_InsertedVrfOutput>, r: Option<u64>, i: int, j: int, out: Seq<au_InsertedVrfOutput>)
    requires 0 <= i < a.len(), 0 <= j < b.len(), merged(a, b, r, i, j, out), by_vrf(a), by_vrf(b), by_vrf(out), all_below(out, a, i), all_below(out, b, j),
        after(b[j].Pos as int, r), a[i].VrfOutput@ == b[j].VrfOutput@
    ensures merged(a, b, r, i + 1, j + 1, out.push(b[j])), by_vrf(out.push(b[j])), all_below(out.push(b[j]), a, i + 1), all_below(out.push(b[j]), b, j + 1)
{
    assert(replaced(a[i], b, r));
    merge_step_a(a, b, r, i, j, out, out);
    merge_step_b(a, b, r, i + 1, j, out, out.push(b[j]));
}
//@go tree/transparency/auditor.mergeInserted
pub fn au_mergeInserted(existing: Slice<au_InsertedVrfOutput>, added: Slice<au_InsertedVrfOutput>, rightmost: Option<u64>) -> (r: Slice<au_InsertedVrfOutput>)
    requires by_vrf(existing@), by_vrf(added@)
    ensures by_vrf(r@), merged(existing@, added@, rightmost, existing@.len() as int, added@.len() as int, r@)
//@attr #[verifier::spinoff_prover]
//@loop 1
    invariant 0 <= i <= existing@.len(), 0 <= j <= added@.len(), by_vrf(out@), merged(existing@, added@, rightmost, i as int, j as int, out@), all_below(out@, existing@, i as int), all_below(out@, added@, j as int),
    decreases existing@.len() - i + added@.len() - j
//@hint loop 1 top
    let ghost i0 = i as int; let ghost j0 = j as int; let ghost o0 = out@;
    proof { cmp_vals(existing@[i0].VrfOutput@, added@[j0].VrfOutput@); 
        if !after(existing@[i0].Pos as int, rightmost) { merge_step_a(existing@, added@, rightmost, i0, j0, o0, o0); }
        else if !after(added@[j0].Pos as int, rightmost) { merge_step_b(existing@, added@, rightmost, i0, j0, o0, o0); }
        else if lt(existing@[i0].VrfOutput@, added@[j0].VrfOutput@) { merge_step_a(existing@, added@, rightmost, i0, j0, o0, o0.push(existing@[i0])); }
        else if existing@[i0].VrfOutput@ == added@[j0].VrfOutput@ { merge_step_ab(existing@, added@, rightmost, i0, j0, o0); }
        else { merge_step_b(existing@, added@, rightmost, i0, j0, o0, o0.push(added@[j0])); } }
//@loop 2
    invariant 0 <= i <= existing@.len(), 0 <= j <= added@.len(), i == existing@.len() || j == added@.len(), by_vrf(out@), merged(existing@, added@, rightmost, i as int, j as int, out@), all_below(out@, existing@, i as int), all_below(out@, added@, j as int),
    decreases existing@.len() - i
//@hint loop 2 top
    let ghost i2 = i as int; let ghost o2 = out@;
    proof { if after(existing@[i2].Pos as int, rightmost) { merge_step_a(existing@, added@, rightmost, i2, j as int, o2, o2.push(existing@[i2])); } else { merge_step_a(existing@, added@, rightmost, i2, j as int, o2, o2); } }
//@loop 3
    invariant i == existing@.len(), 0 <= j <= added@.len(), by_vrf(out@), merged(existing@, added@, rightmost, i as int, j as int, out@), all_below(out@, existing@, i as int), all_below(out@, added@, j as int),
    decreases added@.len() - j
//@hint loop 3 top
    let ghost j3 = j as int; let ghost o3 = out@;
    proof { if after(added@[j3].Pos as int, rightmost) { merge_step_b(existing@, added@, rightmost, i as int, j3, o3, o3.push(added@[j3])); } else { merge_step_b(existing@, added@, rightmost, i as int, j3, o3, o3); } }
//@end
//@go tree/transparency/auditor.AuditorState.addedSince
pub fn au_addedSince(as_: Option<au_AuditorState>, x: u64, vrfOutput: Slice<u8>) -> (r: bool)
    requires as_.is_some() ==> by_vrf(as_.unwrap().Inserted@)
    ensures as_.is_none() ==> r, as_.is_some() ==> r == exists|i: int| 0 <= i < as_.unwrap().Inserted@.len() && #[trigger] as_.unwrap().Inserted@[i].VrfOutput@ == vrfOutput@ && as_.unwrap().Inserted@[i].Pos > x
//@hint after call slices_BSF 1
    proof { assert forall|i: int| #![trigger as_.unwrap().Inserted@[i]] 0 <= i < as_.unwrap().Inserted@.len() implies (as_.unwrap().Inserted@[i].VrfOutput@ == vrfOutput@ <==> RES1 && i == RES0) by {
        cmp_vals(as_.unwrap().Inserted@[i].VrfOutput@, vrfOutput@); if RES1 { cmp_vals(as_.unwrap().Inserted@[RES0 as int].VrfOutput@, vrfOutput@); } cmp_vals(vrfOutput@, vrfOutput@); } }
//@end
//@go tree/transparency/auditor.NewAuditor
pub fn au_NewAuditor(config: st_PublicConfig, auditorKey: SignKey, tx: AuStore) -> (r: (au_Auditor, Option<GoErr>))
    requires config.Config.Mode == 3 ==> !config.Config.AuditorPublicKey.nil@
    ensures r.1.is_none() ==> config.Config.Mode == 3 && key_bytes(config.Config.AuditorPublicKey) == key_bytes(key_pub(auditorKey.id@)) && r.0.config == config && r.0.auditorKey == auditorKey && r.0.tx == tx,
        r.1.is_none() ==> (match tx.data@ { None => r.0.state.is_none(), Some(b) => r.0.state.is_some() && state_bytes(config.Config.Suite, b, r.0.state.unwrap(), Seq::empty()) })
//@hint after call buf_Len 1
    proof { if RES == 0 { assert(buf@ =~= Seq::<u8>::empty()); } }
//@end
// ---- the log that results
pub struct Hist { pub ts: Seq<u64>, pub roots: Seq<Seq<u8>>, pub adds: Seq<Seq<Seq<u8>>> }
// An arbitrary past: what is proved of it holds of every past.
pub uninterp spec fn past() -> Hist;
pub open spec fn hist_ok(h: Hist) -> bool {
    &&& h.ts.len() == h.roots.len() && h.ts.len() == h.adds.len() && h.ts.len() < 0x4000_0000_0000_0000
    &&& forall|i: int, j: int| 0 <= i < j < h.ts.len() ==> #[trigger] h.ts[i] <= #[trigger] h.ts[j]
}
pub open spec fn size(h: Hist) -> int { h.ts.len() as int }
pub open spec fn vrfs(s: Seq<px_Entry>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].VrfOutput@) }
pub open spec fn grown(h: Hist, ts: u64, root: Seq<u8>, added: Seq<px_Entry>) -> Hist { Hist { ts: h.ts.push(ts), roots: h.roots.push(root), adds: h.adds.push(vrfs(added)) } }
// its timestamps, and its log tree's leaves
pub open spec fn tsf(h: Hist) -> spec_fn(int) -> int { |i: int| if 0 <= i < h.ts.len() { h.ts[i] as int } else { 0 } }
pub open spec fn leaves(cs: Suite, h: Hist) -> Log { |i: int| if 0 <= i < h.ts.len() { leaf_hash(cs, h.ts[i], h.roots[i]) } else { Seq::new(hsize(cs) as nat, |k: int| 0u8) } }
pub open spec fn adds_at(h: Hist, p: int, v: Seq<u8>) -> bool { 0 <= p < h.adds.len() && h.adds[p].contains(v) }
// entry p is the last that added v
pub open spec fn last_add(h: Hist, v: Seq<u8>, p: int) -> bool { adds_at(h, p, v) && forall|q: int| q > p ==> !#[trigger] adds_at(h, q, v) }
pub open spec fn added_after(h: Hist, v: Seq<u8>, x: int) -> bool { exists|q: int| q > x && #[trigger] adds_at(h, q, v) }
// s: every output added after r, with the entry that added it last
pub open spec fn recent(s: Seq<au_InsertedVrfOutput>, h: Hist, r: Option<u64>) -> bool {
    &&& by_vrf(s)
    &&& forall|k: int| 0 <= k < s.len() ==> last_add(h, (#[trigger] s[k]).VrfOutput@, s[k].Pos as int) && after(s[k].Pos as int, r)
    &&& forall|p: int, v: Seq<u8>| #[trigger] last_add(h, v, p) && after(p, r) ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).VrfOutput@ == v && s[k].Pos == p
}
pub open spec fn is_front(s: Seq<u64>, n: int) -> bool { increasing(s) && (forall|i: int| 0 <= i < s.len() ==> spine(#[trigger] s[i] as int, n)) && (forall|y: u64| spine(y as int, n) ==> s.contains(y)) }
pub open spec fn front_ts(t: Seq<u64>, h: Hist) -> bool { forall|fr: Seq<u64>| #[trigger] is_front(fr, size(h)) ==> t.len() == fr.len() && forall|i: int| 0 <= i < fr.len() ==> #[trigger] t[i] == h.ts[fr[i] as int] }
// the auditor's state is exactly the log h
pub open spec fn tracks(c: st_PublicConfig, s: Option<au_AuditorState>, h: Hist) -> bool {
    hist_ok(h) && match s {
        None => size(h) == 0,
        Some(s) => {
            &&& size(h) >= 1 && s.TreeHead.TreeSize == size(h) && s.TreeHead.Timestamp == h.ts.last()
            &&& s.PrefixTree@ == h.roots.last()
            &&& vals(s.FullSubtrees@) == true_full(c.Config.Suite, leaves(c.Config.Suite, h), size(h)) && full_ok(c.Config.Suite, s.FullSubtrees@)
            &&& front_ts(s.Timestamps@, h)
            &&& exists|r: Option<u64>| #[trigger] rightmost_is(c, size(h), tsf(h), size(h), r) && recent(s.Inserted@, h, r)
        },
    }
}
pub open spec fn last_root(c: st_PublicConfig, h: Hist) -> Seq<u8> { if size(h) == 0 { Seq::new(hsize(c.Config.Suite) as nat, |i: int| 0u8) } else { h.roots.last() } }
// C17: when an update is acceptable after h, and leads to the prefix tree root `root`
pub open spec fn acceptable(c: st_PublicConfig, h: Hist, u: st_AuditorUpdate, root: Seq<u8>) -> bool {
    &&& size(h) > 0 ==> u.Timestamp >= h.ts.last()
    &&& entries_sorted(u.Added@) && entries_sorted(u.Removed@)
    &&& u.Proof.Results@.len() == u.Added@.len() + u.Removed@.len()
    &&& forall|i: int| 0 <= i < u.Added@.len() ==> !psr_incl(#[trigger] u.Proof.Results@[i]) || exists|j: int| 0 <= j < u.Removed@.len() && (#[trigger] u.Removed@[j]).VrfOutput@ == u.Added@[i].VrfOutput@
    &&& forall|j: int| 0 <= j < u.Removed@.len() ==> psr_incl(#[trigger] u.Proof.Results@[u.Added@.len() + j])
    &&& u.Removed@.len() > 0 ==> exists|p: u64| #[trigger] rightmost_is(c, size(h) + 1, tsf(grown(h, u.Timestamp, root, u.Added@)), size(h), Some(p)) && forall|j: int| 0 <= j < u.Removed@.len() ==> !added_after(h, (#[trigger] u.Removed@[j]).VrfOutput@, p as int)
    &&& before_after(c.Config.Suite, u.Added@, u.Removed@, u.Proof, last_root(c, h), root)
}
pub proof fn front_unique(a: Seq<u64>, b: Seq<u64>, n: int) requires is_front(a, n), is_front(b, n) ensures a == b
{ front_prefix(a, b, n, a.len() as int); front_prefix(b, a, n, b.len() as int); assert(a =~= b); }
pub proof fn front_prefix(a: Seq<u64>, b: Seq<u64>, n: int, k: int) requires is_front(a, n), is_front(b, n), 0 <= k <= a.len() ensures k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] decreases k
{
    if k > 0 {
        front_prefix(a, b, n, k - 1);
        assert(spine(a[k - 1] as int, n)); assert(b.contains(a[k - 1]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a[k - 1];
        if i < k - 1 { assert(a[i] == b[i]); }
        if i > k - 1 { assert(spine(b[k - 1] as int, n)); assert(a.contains(b[k - 1])); let m = choose|m: int| 0 <= m < a.len() && a[m] == b[k - 1]; if m < k - 1 { assert(b[m] == a[m]); } }
    }
}
// ---- a distinguished entry stays distinguished
pub proof fn new_above(z: int, n: int) requires 0 <= z < n, nh(z) == n ensures lvl(n) > lvl(z)
{
    lvl_props(z); lvl_props(n); pw_pos(lvl(n));
    if lvl(n) <= lvl(z) { laminar(n, z); }
}
pub proof fn same_node(a: int, b: int) requires a >= 0, b >= 0, nl(a) == nl(b), nh(a) == nh(b) ensures a == b { lvl_props(a); lvl_props(b); }
pub proof fn new_left(z: int, n: int) requires 0 <= z < n, nh(z) == n, nl(n) >= nl(z) ensures lvl(n) >= 1, left_of(n) == z, nl(n) == nl(z)
{ new_above(z, n); lvl_props(z); lvl_props(n); pw_pos(lvl(z)); left_props(n); laminar(z, n); same_node(left_of(n), z); }
// below a complete subtree nothing changes
pub proof fn complete_grows(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, cur: int, l: int, r: int, r2: int)
    requires 0 <= cur < n, nh(cur) <= n, distd(c, n, f, x, cur, l, r), r <= r2 ensures distd(c, n + 1, f, x, cur, l, r2)
    decreases lvl(cur)
{
    if x < cur && lvl(cur) >= 1 { lvl_props(cur); left_props(cur); complete_grows(c, n, f, x, left_of(cur), l, f(cur), f(cur)); }
    if x > cur && lvl(cur) >= 1 {
        lvl_props(cur); rstep_props(cur);
        right_is(rstep_of(cur), cur, n); right_is(rstep_of(cur), cur, n + 1);
        complete_grows(c, n, f, x, rstep_of(cur), f(cur), r, r2);
    }
}
pub proof fn distd_left(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, z: int, l: int, r: int)
    requires 0 <= x < n, lvl(n) >= 1, left_of(n) == z, lvl(z) < lvl(n), is_dist(c, l, r), distd(c, n + 1, f, x, z, l, f(n)) ensures distd(c, n + 1, f, x, n, l, r)
{ reveal_with_fuel(distd, 2); }
pub proof fn spine_grows(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, cur: int, l: int)
    requires spine(cur, n), nh(cur) > n, x < n, distd(c, n, f, x, cur, l, f(n - 1)), f(n - 1) <= f(n) ensures distd(c, n + 1, f, x, cur, l, f(n))
    decreases lvl(cur)
{
    lvl_props(cur);
    if x < cur && lvl(cur) >= 1 { left_props(cur); complete_grows(c, n, f, x, left_of(cur), l, f(cur), f(cur)); }
    if x > cur && lvl(cur) >= 1 {
        let z = right_of(cur, n);
        right_exists(cur, n); lvl_props(z);
        spine_next(cur, x, n);
        if nh(z) > n { right_is(z, cur, n + 1); spine_grows(c, n, f, x, z, f(cur)); }
        else {
            lvl_props(n); under_split(n, cur); rstep_props(cur); under_nested(n, rstep_of(cur));
            new_left(z, n);
            right_is(n, cur, n + 1);
            new_above(z, n);
            assert(distd(c, n, f, x, z, f(cur), f(n - 1)));
            assert(is_dist(c, f(cur), f(n - 1))) by { reveal_with_fuel(distd, 2); }
            complete_grows(c, n, f, x, z, f(cur), f(n - 1), f(n));
            distd_left(c, n, f, x, z, f(cur), f(n));
            assert(right_of(cur, n + 1) == n);
        }
    }
}
pub proof fn dist_grows(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int) requires n >= 1, dist(c, n, f, x), f(n - 1) <= f(n) ensures dist(c, n + 1, f, x)
{
    let t = root_of(n);
    root_exists(n); lvl_props(t);
    if nh(t) > n { root_is(t, n + 1); spine_grows(c, n, f, x, t, 0); }
    else { lvl_props(n); new_left(t, n); root_is(n, n + 1); complete_grows(c, n, f, x, t, 0, f(n - 1), f(n)); }
}
// dist reads timestamps below n only
pub proof fn distd_ts(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, g: spec_fn(int) -> int, x: int, cur: int, l: int, r: int)
    requires 0 <= cur < n, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures distd(c, n, f, x, cur, l, r) == distd(c, n, g, x, cur, l, r) decreases lvl(cur)
{
    if lvl(cur) >= 1 {
        lvl_props(cur); left_props(cur);
        assert(f(cur) == g(cur));
        distd_ts(c, n, f, g, x, left_of(cur), l, f(cur));
        if cur + 1 < n { right_exists(cur, n); distd_ts(c, n, f, g, x, right_of(cur, n), f(cur), r); }
    }
}
pub proof fn dist_ts(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, g: spec_fn(int) -> int) requires n >= 1, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures forall|x: int| #![trigger dist(c, n, f, x)] #![trigger dist(c, n, g, x)] dist(c, n, f, x) == dist(c, n, g, x)
{ root_exists(n); assert(f(n - 1) == g(n - 1)); assert forall|x: int| #![trigger dist(c, n, f, x)] #![trigger dist(c, n, g, x)] dist(c, n, f, x) == dist(c, n, g, x) by { distd_ts(c, n, f, g, x, root_of(n), 0, f(n - 1)); } }
// so the rightmost one does not move to the left
pub open spec fn le_opt(a: Option<u64>, b: Option<u64>) -> bool { a.is_some() ==> b.is_some() && a.unwrap() <= b.unwrap() }
pub proof fn rightmost_grows(c: st_PublicConfig, h: Hist, ts: u64, root: Seq<u8>, added: Seq<px_Entry>, k: int, r: Option<u64>, p: Option<u64>)
    requires hist_ok(h), size(h) > 0 ==> ts >= h.ts.last(), size(h) > 0 ==> rightmost_is(c, size(h), tsf(h), size(h), r), size(h) == 0 ==> r.is_none(), k >= size(h), rightmost_is(c, size(h) + 1, tsf(grown(h, ts, root, added)), k, p)
    ensures le_opt(r, p)
{
    let g = tsf(grown(h, ts, root, added)); let n = size(h);
    if r.is_some() { 
        assert forall|i: int| 0 <= i < n implies #[trigger] tsf(h)(i) == g(i) by { assert(h.ts.push(ts)[i] == h.ts[i]); }
        dist_ts(c, n, tsf(h), g); 
        assert(dist(c, n, g, r.unwrap() as int)); assert(g(n - 1) <= g(n)); dist_grows(c, n, g, r.unwrap() as int); }
}
// merging keeps the recent insertions recent
pub proof fn recent_grows(h: Hist, h2: Hist, a: Seq<au_InsertedVrfOutput>, b: Seq<au_InsertedVrfOutput>, added: Seq<px_Entry>, ts: u64, root: Seq<u8>, r0: Option<u64>, r: Option<u64>, out: Seq<au_InsertedVrfOutput>)
    requires hist_ok(h), h2 == grown(h, ts, root, added), recent(a, h, r0), le_opt(r0, r), by_vrf(out), merged(a, b, r, a.len() as int, b.len() as int, out),
        b.len() == added.len(), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).Pos == size(h) && b[i].VrfOutput == added[i].VrfOutput
    ensures recent(out, h2, r)
{
    let n = size(h);
    assert forall|p: int, v: Seq<u8>| #![trigger adds_at(h2, p, v)] #![trigger adds_at(h, p, v)] p != n implies adds_at(h2, p, v) == adds_at(h, p, v) by { if 0 <= p < n { assert(h2.adds[p] == h.adds[p]); } }
    assert(h2.adds[n] == vrfs(added));
    assert forall|v: Seq<u8>| adds_at(h2, n, v) implies exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).VrfOutput@ == v by { let j = choose|j: int| 0 <= j < vrfs(added).len() && vrfs(added)[j] == v; assert(b[j].VrfOutput@ == v); }
    assert forall|j: int| 0 <= j < b.len() implies adds_at(h2, n, (#[trigger] b[j]).VrfOutput@) by { assert(vrfs(added)[j] == b[j].VrfOutput@); }
    assert forall|k: int| 0 <= k < out.len() implies last_add(h2, (#[trigger] out[k]).VrfOutput@, out[k].Pos as int) && after(out[k].Pos as int, r) by {
        let e = out[k]; assert(after(e.Pos as int, r));
        if b.subrange(0, b.len() as int).contains(e) { let j = choose|j: int| 0 <= j < b.len() && b.subrange(0, b.len() as int)[j] == e; assert(b[j] == e); }
        else { let j = choose|j: int| 0 <= j < a.len() && a.subrange(0, a.len() as int)[j] == e; assert(a[j] == e); assert(last_add(h, e.VrfOutput@, e.Pos as int));
            if adds_at(h2, n, e.VrfOutput@) { let j2 = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).VrfOutput@ == e.VrfOutput@; assert(e.Pos < n); assert(replaced(e, b, r)); }
        }
    }
    assert forall|p: int, v: Seq<u8>| #[trigger] last_add(h2, v, p) && after(p, r) implies exists|k: int| 0 <= k < out.len() && (#[trigger] out[k]).VrfOutput@ == v && out[k].Pos == p by {
        if p == n { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).VrfOutput@ == v; assert(after(b[j].Pos as int, r)); assert(out.contains(b[j])); let k = choose|k: int| 0 <= k < out.len() && out[k] == b[j]; assert(out[k].VrfOutput@ == v); }
        else {
            assert(last_add(h, v, p)); assert(after(p, r0));
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).VrfOutput@ == v && a[j].Pos == p;
            if replaced(a[j], b, r) { let q = choose|q: int| 0 <= q < b.len() && (#[trigger] b[q]).VrfOutput@ == a[j].VrfOutput@ && after(b[q].Pos as int, r); assert(adds_at(h2, n, v)); assert(false); }
            assert(out.contains(a[j])); let k = choose|k: int| 0 <= k < out.len() && out[k] == a[j]; assert(out[k].VrfOutput@ == v);
        }
    }
}
// a provider that knows what the distinguished entries of h depend on
pub open spec fn ready(p: al_DataProvider, h: Hist) -> bool { wf(p) && p.handle.nil@ && prev_known(p, size(h)) && agree(p.timestamps@, tsf(h)) }
pub open spec fn with_sig(s: au_AuditorState, sig: Slice<u8>) -> au_AuditorState { au_AuditorState { TreeHead: st_AuditorTreeHead { Signature: sig, ..s.TreeHead }, ..s } }
pub proof fn hist_grows(h: Hist, ts: u64, root: Seq<u8>, added: Seq<px_Entry>) requires hist_ok(h), size(h) > 0 ==> ts >= h.ts.last()
    ensures size(grown(h, ts, root, added)) == size(h) + 1, size(h) + 1 < 0x4000_0000_0000_0000 ==> hist_ok(grown(h, ts, root, added))
{ let g = grown(h, ts, root, added); assert forall|i: int, j: int| 0 <= i < j < g.ts.len() implies #[trigger] g.ts[i] <= #[trigger] g.ts[j] by { if j == size(h) { assert(h.ts[i] <= h.ts.last()); } else { assert(h.ts[i] <= h.ts[j]); } } }
pub proof fn tsf_same(h: Hist, ts: u64, root: Seq<u8>, added: Seq<px_Entry>) ensures tsf(grown(h, ts, root, added)) == tsf(grown(h, ts, Seq::empty(), Seq::empty()))
{ assert(grown(h, ts, root, added).ts == grown(h, ts, Seq::empty(), Seq::empty()).ts); assert(tsf(grown(h, ts, root, added)) =~= tsf(grown(h, ts, Seq::empty(), Seq::empty()))); }
pub proof fn mv_same(cs: Suite, l: Log, m: Log, n: int, x: int) requires 0 <= x, nh(x) <= 2 * n - 1, forall|i: int| 0 <= i < n ==> #[trigger] l(i) == m(i) ensures mv(cs, l, x) == mv(cs, m, x) decreases lvl(x)
{
    lvl_props(x);
    if lvl(x) >= 1 { mv_inner(cs, l, x); mv_inner(cs, m, x); left_props(x); rstep_props(x); mv_same(cs, l, m, n, left_of(x)); mv_same(cs, l, m, n, rstep_of(x)); }
    else { assert(l(x / 2) == m(x / 2)); }
}
pub proof fn leaves_grow(cs: Suite, h: Hist, ts: u64, root: Seq<u8>, added: Seq<px_Entry>) requires hist_ok(h), size(h) >= 1 ensures true_full(cs, leaves(cs, h), size(h)) == true_full(cs, leaves(cs, grown(h, ts, root, added)), size(h))
{
    let n = size(h); let g = grown(h, ts, root, added);
    root_exists(2 * n - 1); fsubs_props(root_of(2 * n - 1), 2 * n - 1);
    assert forall|i: int| 0 <= i < n implies #[trigger] leaves(cs, h)(i) == leaves(cs, g)(i) by { assert(h.ts[i] == g.ts[i]); assert(h.roots[i] == g.roots[i]); }
    assert forall|i: int| 0 <= i < froot(n).len() implies mv(cs, leaves(cs, h), #[trigger] froot(n)[i] as int) == mv(cs, leaves(cs, g), froot(n)[i] as int) by { mv_same(cs, leaves(cs, h), leaves(cs, g), n, froot(n)[i] as int); }
    assert(true_full(cs, leaves(cs, h), n) =~= true_full(cs, leaves(cs, g), n));
}
pub proof fn last_exists(h: Hist, v: Seq<u8>, x: int) requires added_after(h, v, x) ensures exists|p: int| p > x && #[trigger] last_add(h, v, p)
{ let q = choose|q: int| q > x && #[trigger] adds_at(h, q, v); last_from(h, v, q); }
pub proof fn last_from(h: Hist, v: Seq<u8>, q: int) requires adds_at(h, q, v) ensures exists|p: int| p >= q && #[trigger] last_add(h, v, p) decreases h.adds.len() - q
{ if exists|p: int| p > q && #[trigger] adds_at(h, p, v) { let p = choose|p: int| p > q && #[trigger] adds_at(h, p, v); last_from(h, v, p); } else { assert(last_add(h, v, q)); } }
// the entries retained: the timestamps of the frontier and the new one
pub open spec fn held(m: Map<u64, st_LogEntry>, h: Hist, added: u64, fr: Seq<u64>) -> bool {
    let n = size(h);
    &&& n < 0x4000_0000_0000_0000 && m.dom().contains(n as u64) && m[n as u64].Timestamp == added
    &&& forall|x: u64| #[trigger] m.dom().contains(x) && x != n ==> x < n && m[x].Timestamp == h.ts[x as int]
    &&& n > 0 ==> is_front(fr, n) && forall|i: int| 0 <= i < fr.len() ==> m.dom().contains(#[trigger] fr[i])
}
pub proof fn held_facts(m: Map<u64, st_LogEntry>, h: Hist, added: u64, fr: Seq<u64>) requires hist_ok(h), held(m, h, added, fr), size(h) > 0 ==> added >= h.ts.last() ensures entries_mono(m)
{ assert forall|x: u64, y: u64| m.dom().contains(x) && m.dom().contains(y) && x < y implies #[trigger] m[x].Timestamp <= #[trigger] m[y].Timestamp by {
    if y == size(h) { assert(x != size(h)); assert(h.ts[x as int] <= h.ts.last()); } else { assert(h.ts[x as int] <= h.ts[y as int]); } } }
pub proof fn held_ready(m: Map<u64, st_LogEntry>, h: Hist, added: u64, fr: Seq<u64>, p: al_DataProvider)
    requires hist_ok(h), held(m, h, added, fr), wf(p), p.handle.nil@,
        forall|x: u64| #[trigger] p.timestamps@.dom().contains(x) ==> m.dom().contains(x) && p.timestamps@[x] == m[x].Timestamp,
        forall|x: u64| #[trigger] m.dom().contains(x) ==> has_ts(p, x)
    ensures ready(p, grown(h, added, Seq::empty(), Seq::empty()))
{
    let g = grown(h, added, Seq::empty(), Seq::empty()); let n = size(h);
    assert forall|x: u64| #[trigger] p.timestamps@.dom().contains(x) implies tsf(g)(x as int) == p.timestamps@[x] by { if x != n { assert(g.ts[x as int] == h.ts[x as int]); } }
    assert(has_ts(p, n as u64));
    assert forall|x: u64| spine(x as int, n) implies #[trigger] has_ts(p, x) by { assert(n > 0); assert(fr.contains(x)); let i = choose|i: int| 0 <= i < fr.len() && fr[i] == x; assert(m.dom().contains(fr[i])); }
}
pub proof fn tracks_size(c: st_PublicConfig, s: Option<au_AuditorState>, h: Hist) requires tracks(c, s, h) ensures hist_ok(h), s.is_none() ==> size(h) == 0, s.is_some() ==> size(h) >= 1 && s.unwrap().TreeHead.TreeSize == size(h) {}
pub proof fn tracks_front(c: st_PublicConfig, s: Option<au_AuditorState>, h: Hist, fr: Seq<u64>) requires tracks(c, s, h), s.is_some(), is_front(fr, size(h))
    ensures s.unwrap().Timestamps@.len() == fr.len(), forall|i: int| 0 <= i < fr.len() ==> s.unwrap().Timestamps@[i] == h.ts[#[trigger] fr[i] as int] && fr[i] < size(h)
{ assert forall|i: int| 0 <= i < fr.len() implies s.unwrap().Timestamps@[i] == h.ts[#[trigger] fr[i] as int] && fr[i] < size(h) by { assert(front_ts(s.unwrap().Timestamps@, h)); assert(spine(fr[i] as int, size(h))); } }
//@go tree/transparency/auditor.Auditor.previousRightmost
pub fn au_previousRightmost(a: au_Auditor, added: u64) -> (r: (Option<u64>, al_DataProvider, Option<GoErr>))
    requires tracks(a.config, a.state, past()), a.state.is_some() ==> added >= past().ts.last()
    ensures r.2.is_none(), ready(r.1, grown(past(), added, Seq::empty(), Seq::empty())), rightmost_is(a.config, size(past()) + 1, tsf(grown(past(), added, Seq::empty(), Seq::empty())), size(past()), r.0)
//@attr #[verifier::spinoff_prover]
//@attr hide tracks
//@hint entry
    let ghost h = past(); let ghost g = grown(h, added, Seq::empty(), Seq::empty());
    let ghost mut fr = Seq::<u64>::empty();
    proof { tracks_size(a.config, a.state, h); }
//@hint after call tm_Frontier 1
    proof { fr = RES@; assert(is_front(fr, size(h))); tracks_front(a.config, a.state, h, fr); }
//@loop 1
    invariant SEQ@ == fr, is_front(fr, size(h)), n == size(h), a.state.is_some(), a.state.unwrap().Timestamps@.len() == fr.len(), !logEntries.nil@,
        forall|x: u64| #[trigger] logEntries@.dom().contains(x) ==> x < n && logEntries@[x].Timestamp == h.ts[x as int],
        forall|i: int| 0 <= i < IDX ==> logEntries@.dom().contains(#[trigger] fr[i]),
    decreases SEQ@.len() - IDX
//@hint after call al_NewDataProvider 1
    proof { assert(held(logEntries@, h, added, fr)); held_facts(logEntries@, h, added, fr); }
//@hint after call al_AddRetained 1
    proof { assert(RES.is_none()); assert(has_ts(provider, n)); held_ready(logEntries@, h, added, fr, provider); }
//@hint after call al_PreviousRightmost 1
    proof { assert(RES1.is_none()); }
//@end
pub proof fn tracks_state(c: st_PublicConfig, s: Option<au_AuditorState>, h: Hist) -> (r: Option<u64>) requires tracks(c, s, h), s.is_some()
    ensures vals(s.unwrap().FullSubtrees@) == true_full(c.Config.Suite, leaves(c.Config.Suite, h), size(h)), full_ok(c.Config.Suite, s.unwrap().FullSubtrees@), s.unwrap().FullSubtrees@.len() == froot(size(h)).len(),
        rightmost_is(c, size(h), tsf(h), size(h), r), recent(s.unwrap().Inserted@, h, r), by_vrf(s.unwrap().Inserted@)
{ assert(vals(s.unwrap().FullSubtrees@).len() == s.unwrap().FullSubtrees@.len()); choose|r: Option<u64>| #[trigger] rightmost_is(c, size(h), tsf(h), size(h), r) && recent(s.unwrap().Inserted@, h, r) }
pub proof fn front_ts_of(fr: Seq<u64>, t: Seq<u64>, g: Hist) requires is_front(fr, size(g)), t.len() == fr.len(), forall|i: int| 0 <= i < fr.len() ==> #[trigger] t[i] == g.ts[fr[i] as int] ensures front_ts(t, g)
{ assert forall|f2: Seq<u64>| #[trigger] is_front(f2, size(g)) implies t.len() == f2.len() && forall|i: int| 0 <= i < f2.len() ==> #[trigger] t[i] == g.ts[f2[i] as int] by { front_unique(f2, fr, size(g)); } }
pub proof fn tracks_new(c: st_PublicConfig, s: au_AuditorState, g: Hist, r: Option<u64>)
    requires hist_ok(g), size(g) >= 1, s.TreeHead.TreeSize == size(g), s.TreeHead.Timestamp == g.ts.last(), s.PrefixTree@ == g.roots.last(),
        vals(s.FullSubtrees@) == true_full(c.Config.Suite, leaves(c.Config.Suite, g), size(g)), full_ok(c.Config.Suite, s.FullSubtrees@), front_ts(s.Timestamps@, g),
        rightmost_is(c, size(g), tsf(g), size(g), r), recent(s.Inserted@, g, r)
    ensures tracks(c, Some(s), g) {}
pub proof fn inserted_now(h: Hist, ts: u64, root: Seq<u8>, added: Seq<px_Entry>, b: Seq<au_InsertedVrfOutput>) requires b.len() == added.len(), entries_sorted(added), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).Pos == size(h) && b[i].VrfOutput == added[i].VrfOutput ensures by_vrf(b)
{ assert forall|i: int, j: int| 0 <= i < j < b.len() implies lt(#[trigger] b[i].VrfOutput@, #[trigger] b[j].VrfOutput@) by { assert(lt(added[i].VrfOutput@, added[j].VrfOutput@)); } }
//@go tree/transparency/auditor.Auditor.updateState
pub fn au_updateState(a_r: &mut au_Auditor, provider_r: &mut al_DataProvider, added: Slice<px_Entry>, entry: st_LogEntry) -> (r: Option<GoErr>)
    requires tracks(old(a_r).config, old(a_r).state, past()), ready(*old(provider_r), grown(past(), entry.Timestamp, Seq::empty(), Seq::empty())), entries_sorted(added@), size(past()) + 1 < 0x4000_0000_0000_0000, size(past()) > 0 ==> entry.Timestamp >= past().ts.last()
    ensures final(a_r).config == old(a_r).config, final(a_r).auditorKey == old(a_r).auditorKey, final(a_r).tx == old(a_r).tx,
        r.is_some() ==> *final(a_r) == *old(a_r),
        r.is_none() ==> final(a_r).state.is_some() && final(a_r).state.unwrap().TreeHead.Signature.nil@ && tracks(final(a_r).config, final(a_r).state, grown(past(), entry.Timestamp, entry.PrefixTree@, added@))
//@attr #[verifier::spinoff_prover]
//@attr hide tracks
//@attr hide recent
//@attr hide true_full
//@attr hide rightmost_is
//@attr hide merged
//@attr hide front_ts
//@hint entry
    let ghost h = past(); let ghost g = grown(h, entry.Timestamp, entry.PrefixTree@, added@); let ghost cs = a.config.Config.Suite; let ghost k = size(h);
    let ghost p0 = provider; let ghost mut fr = Seq::<u64>::empty(); let ghost mut b = Seq::<au_InsertedVrfOutput>::empty(); let ghost mut ins0 = Seq::<au_InsertedVrfOutput>::empty();
    let ghost mut r0: Option<u64> = None;
    proof { tracks_size(a.config, a.state, h); tsf_same(h, entry.Timestamp, entry.PrefixTree@, added@); hist_grows(h, entry.Timestamp, entry.PrefixTree@, added@); prev_spine(provider, k + 1); }
//@hint before call lg_Append 1
    proof { 
        if a.state.is_some() { r0 = tracks_state(a.config, a.state, h); ins0 = a.state.unwrap().Inserted@; leaves_grow(cs, h, entry.Timestamp, entry.PrefixTree@, added@); }
        else { reveal(recent); assert(recent(ins0, h, None)); }
        assert(leaves(cs, g)(k) == leaf_hash(cs, entry.Timestamp, entry.PrefixTree@)); }
//@hint after call lg_Append 1
    proof { if RES1.is_none() { assert(vals(RES0@) == true_full(cs, leaves(cs, g), k + 1)); } }
//@hint after call tm_Frontier 1
    proof { fr = RES@; assert(is_front(fr, k + 1)); }
//@loop 1
    invariant SEQ@ == fr, is_front(fr, k + 1), n == k, provider == p0, a == *old(a_r), timestamps@.len() == IDX, forall|i: int| 0 <= i < IDX ==> #[trigger] timestamps@[i] == g.ts[fr[i] as int],
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { assert(spine(fr[IDX1 - 1] as int, k + 1)); assert(has_ts(provider, x)); assert(tsf(g)(x as int) == provider.timestamps@[x]); }
//@hint after loop 1
    proof { front_ts_of(fr, timestamps@, g); }
//@loop 2
    invariant SEQ@ == added@, n == k, insertedNow@.len() == added@.len(), a == *old(a_r), forall|i: int| 0 <= i < IDX ==> (#[trigger] insertedNow@[i]).Pos == k && insertedNow@[i].VrfOutput == added@[i].VrfOutput,
    decreases SEQ@.len() - IDX
//@hint after loop 2
    proof { b = insertedNow@;
        inserted_now(h, entry.Timestamp, entry.PrefixTree@, added@, b);
        assert(rightmost_is(a.config, k + 1, tsf(g), k + 1, rightmost));
        rightmost_grows(a.config, h, entry.Timestamp, entry.PrefixTree@, added@, k + 1, r0, rightmost); }
//@hint after call au_mergeInserted 1
    proof { assert(inserted@ =~= ins0); assert(insertedNow@ =~= b); recent_grows(h, g, ins0, b, added@, entry.Timestamp, entry.PrefixTree@, r0, rightmost, RES@); }
//@hint return 5
    proof { tracks_new(a.config, a.state.unwrap(), g, rightmost); }
//@end
//@go tree/transparency/auditor.Auditor.Process
pub fn au_Process(a_r: &mut au_Auditor, update: st_AuditorUpdate) -> (r: Option<GoErr>)
    requires tracks(old(a_r).config, old(a_r).state, past()), psr_nn(update.Proof.Results@), size(past()) + 1 < 0x4000_0000_0000_0000, update.Added@.len() + update.Removed@.len() <= i64::MAX
    ensures final(a_r).config == old(a_r).config, final(a_r).auditorKey == old(a_r).auditorKey, final(a_r).tx == old(a_r).tx,
        r.is_some() ==> *final(a_r) == *old(a_r),
        r.is_none() ==> exists|root: Seq<u8>| #[trigger] acceptable(old(a_r).config, past(), update, root) && tracks(final(a_r).config, final(a_r).state, grown(past(), update.Timestamp, root, update.Added@)),
        r.is_none() ==> final(a_r).state.is_some() && final(a_r).state.unwrap().TreeHead.Signature.nil@
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::allow_complex_invariants]
//@hint entry
    let ghost h = past(); let ghost g0 = grown(h, update.Timestamp, Seq::empty(), Seq::empty());
    let ghost added = update.Added@; let ghost rem = update.Removed@; let ghost res = update.Proof.Results@;
//@loop 1
    invariant 1 <= i, update.Added@ == added, a == *old(a_r), forall|j: int| 0 <= j < i - 1 && j < added.len() - 1 ==> lt(#[trigger] added[j].VrfOutput@, added[j + 1].VrfOutput@),
    decreases added.len() - i
//@hint after loop 1
    proof { adjacent_sorted(added); }
//@loop 2
    invariant 1 <= i, update.Removed@ == rem, a == *old(a_r), forall|j: int| 0 <= j < i - 1 && j < rem.len() - 1 ==> lt(#[trigger] rem[j].VrfOutput@, rem[j + 1].VrfOutput@),
    decreases rem.len() - i
//@hint after loop 2
    proof { adjacent_sorted(rem); }
//@loop 3
    invariant SEQ@ == added, a == *old(a_r), forall|i: int| 0 <= i < IDX ==> !psr_incl(#[trigger] res[i]) || exists|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).VrfOutput@ == added[i].VrfOutput@,
    decreases SEQ@.len() - IDX
//@loop 4
    invariant_except_break !found,
    invariant SEQ@ == rem, a == *old(a_r),
    ensures found ==> exists|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).VrfOutput@ == entry.VrfOutput@,
    decreases SEQ@.len() - IDX
//@loop 5
    invariant SEQ@ == rem, a == *old(a_r), forall|j: int| 0 <= j < IDX ==> psr_incl(#[trigger] res[added.len() + j]),
    decreases SEQ@.len() - IDX
//@loop 6
    invariant SEQ@ == rem, a == *old(a_r), rem.len() > 0 ==> prevDLE.is_some() && rightmost_is(a.config, size(h) + 1, tsf(g0), size(h), prevDLE), forall|j: int| 0 <= j < IDX ==> !added_after(h, (#[trigger] rem[j]).VrfOutput@, prevDLE.unwrap() as int),
    decreases SEQ@.len() - IDX
//@hint loop 6 top
    proof {
        if a.state.is_some() {
            let s = a.state.unwrap().Inserted@;
            let r = choose|r: Option<u64>| #[trigger] rightmost_is(a.config, size(h), tsf(h), size(h), r) && recent(s, h, r);
            rightmost_grows(a.config, h, update.Timestamp, Seq::empty(), Seq::empty(), size(h), r, prevDLE);
            if added_after(h, entry.VrfOutput@, prevDLE.unwrap() as int) { last_exists(h, entry.VrfOutput@, prevDLE.unwrap() as int); 
                let p = choose|p: int| p > prevDLE.unwrap() && #[trigger] last_add(h, entry.VrfOutput@, p); assert(after(p, r)); assert(last_add(h, entry.VrfOutput@, p)); 
                let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).VrfOutput@ == entry.VrfOutput@ && s[k].Pos == p; assert(s[k].Pos > prevDLE.unwrap()); }
        }
    }
//@hint before call au_updateState 1
    proof { tsf_same(h, update.Timestamp, after@, added); assert(tsf(grown(h, update.Timestamp, after@, added)) == tsf(g0)); assert(before@ == last_root(a.config, h)) by { if size(h) == 0 { assert(expected@ =~= last_root(a.config, h)); } } assert(acceptable(a.config, h, update, after@)); }
//@end
//@go tree/transparency/auditor.Auditor.Commit
pub fn au_Commit(a_r: &mut au_Auditor) -> (r: (Option<st_AuditorTreeHead>, Option<GoErr>))
    requires tracks(old(a_r).config, old(a_r).state, past())
    ensures final(a_r).config == old(a_r).config, tracks(final(a_r).config, final(a_r).state, past()),
        r.1.is_some() ==> final(a_r).state == old(a_r).state,
        r.1.is_none() ==> old(a_r).state.is_some() && final(a_r).state == Some(with_sig(old(a_r).state.unwrap(), r.0.unwrap().Signature)) && r.0 == Some(final(a_r).state.unwrap().TreeHead),
        r.1.is_none() && !old(a_r).state.unwrap().TreeHead.Signature.nil@ ==> *final(a_r) == *old(a_r),
        // what is signed and stored is the log that was audited
        r.1.is_none() && old(a_r).state.unwrap().TreeHead.Signature.nil@ ==> sig_ok(key_pub(old(a_r).auditorKey.id@), enc_ath(old(a_r).config, past().ts.last(), size(past()) as u64, log_root(old(a_r).config.Config.Suite, leaves(old(a_r).config.Config.Suite, past()), size(past()))), r.0.unwrap().Signature@)
            && final(a_r).tx.data@.is_some() && forall|cs: Suite| #[trigger] state_bytes(cs, final(a_r).tx.data@.unwrap(), final(a_r).state.unwrap(), Seq::empty()),
        // nothing else is signed
        final(a_r).auditorKey.trace@ == old(a_r).auditorKey.trace@ || old(a_r).state.is_some() && final(a_r).auditorKey.trace@ == old(a_r).auditorKey.trace@.push(enc_ath(old(a_r).config, past().ts.last(), size(past()) as u64, log_root(old(a_r).config.Config.Suite, leaves(old(a_r).config.Config.Suite, past()), size(past())))),
//@end
