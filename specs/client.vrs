//@import finish.vrs search.vrs monitor.vrs
//@use buf.vrs
//@nonnil tree/prefix.Entry tree/transparency/algorithms.ReceivedProofHandle tree/transparency.verifier tree/transparency.Client tree/transparency/structs.ClientLabelState tree/transparency/structs.TreeHeadTBS tree/transparency/structs.AuditorTreeHeadTBS tree/transparency/structs.VrfInput tree/transparency/structs.UpdateTBS tree/transparency/structs.CommitmentValue
//@emit tree/transparency/structs.UpdateValue tree/transparency/structs.TreeHeadTBS tree/transparency/structs.AuditorTreeHeadTBS tree/transparency/structs.ClientLabelState tree/transparency/structs.VrfInput tree/transparency/structs.UpdateTBS tree/transparency/structs.CommitmentValue
//@dropfield tree/transparency/algorithms.ReceivedProofHandle.tracker tree/transparency/structs.CombinedTreeProof.PrefixProofs
//@typemap db.ClientStore Store Store::any()
//@typemap tree/transparency/structs.Marshaller TBS
// ---- C16: what a client accepts
// The client's database. Trusted: a call that fails has stored nothing.
pub struct Store { pub state: Ghost<Option<Seq<u8>>>, pub labels: Ghost<Map<Seq<u8>, (Seq<u8>, u64)>> }
impl Clone for Store { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Store {}
impl Store { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
//@ext db.ClientStore.GetState
pub fn cs_GetState(s: Store) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> (match s.state@ { None => r.0.nil@, Some(b) => !r.0.nil@ && r.0@ == b })
//@end
//@ext db.ClientStore.GetLabelState
pub fn cs_GetLabelState(s: Store, label: Slice<u8>) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0.nil@ == !s.labels@.dom().contains(label@) && (!r.0.nil@ ==> r.0@ == s.labels@[label@].0)
//@end
//@ext db.ClientStore.GetStaleLabel
pub fn cs_GetStaleLabel(s: Store, cutoff: u64) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>)) ensures r.2.is_none() && !r.0.nil@ ==> s.labels@.dom().contains(r.0@) && s.labels@[r.0@].1 <= cutoff && !r.1.nil@ && r.1@ == s.labels@[r.0@].0
//@end
//@ext db.ClientStore.PutState
pub fn cs_PutState(s: &mut Store, raw: Slice<u8>) -> (r: Option<GoErr>) ensures r.is_some() ==> *final(s) == *old(s), r.is_none() ==> final(s).state@ == Some(raw@) && final(s).labels == old(s).labels
//@end
//@ext db.ClientStore.PutLabelState
pub fn cs_PutLabelState(s: &mut Store, raw: Slice<u8>, label: Slice<u8>, rawLabel: Slice<u8>, terminal: u64) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(s) == *old(s), r.is_none() ==> final(s).state@ == Some(raw@) && final(s).labels@ == (if rawLabel.nil@ { old(s).labels@.remove(label@) } else { old(s).labels@.insert(label@, (rawLabel@, terminal)) })
//@end
// What is signed, hashed and stored: the encodings of C14, uninterpreted here.
pub struct TBS { pub b: Ghost<Seq<u8>> }
impl Clone for TBS { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TBS {}
pub uninterp spec fn enc_th(c: st_PublicConfig, n: u64, root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn enc_ath(c: st_PublicConfig, ts: u64, n: u64, root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn enc_vi(label: Seq<u8>, ver: u32) -> Seq<u8>;
pub uninterp spec fn enc_ut(c: st_PublicConfig, label: Seq<u8>, ver: u32, value: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn enc_cv(label: Seq<u8>, ver: u32, u: st_UpdateValue) -> Seq<u8>;
pub uninterp spec fn state_bytes(c: st_PublicConfig, s: st_ClientState, b: Seq<u8>) -> bool;
pub uninterp spec fn label_bytes(s: st_ClientLabelState, b: Seq<u8>) -> bool;
// b encodes s
pub uninterp spec fn enc_state(s: st_ClientState) -> Seq<u8>;
pub uninterp spec fn enc_label(s: st_ClientLabelState) -> Seq<u8>;
#[verifier::external_body]
pub fn TBS_of_st_TreeHeadTBS(t: st_TreeHeadTBS) -> (r: TBS) ensures r.b@ == enc_th(t.Config, t.TreeSize, t.Root@) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_AuditorTreeHeadTBS(t: st_AuditorTreeHeadTBS) -> (r: TBS) ensures r.b@ == enc_ath(t.Config, t.Timestamp, t.TreeSize, t.Root@) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_VrfInput(t: st_VrfInput) -> (r: TBS) ensures r.b@ == enc_vi(t.Label@, t.Version) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_UpdateTBS(t: st_UpdateTBS) -> (r: TBS) ensures r.b@ == enc_ut(t.Config, t.Label@, t.Version, t.Value@) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_CommitmentValue(t: st_CommitmentValue) -> (r: TBS) ensures r.b@ == enc_cv(t.Label@, t.Version, t.Update) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_Option_st_ClientState_(t: Option<st_ClientState>) -> (r: TBS) requires t.is_some() ensures r.b@ == enc_state(t.unwrap()) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_ClientLabelState(t: st_ClientLabelState) -> (r: TBS) ensures r.b@ == enc_label(t) { unimplemented!() }
//@ext tree/transparency/structs.Marshal
pub fn st_Marshal(t: TBS) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0@ == t.b@ && !r.0.nil@
//@end
//@ext tree/transparency/structs.NewClientState
pub fn st_NewClientState(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (Option<st_ClientState>, Option<GoErr>)) ensures r.1.is_none() ==> r.0.is_some() && (final(buf_r)@.len() == 0 ==> old(buf_r)@ == enc_state(r.0.unwrap()))
//@end
//@ext tree/transparency/structs.NewClientLabelState
pub fn st_NewClientLabelState(cs: Suite, buf_r: &mut Buf) -> (r: (st_ClientLabelState, Option<GoErr>)) ensures r.1.is_none() ==> final(buf_r)@.len() == 0 ==> old(buf_r)@ == enc_label(r.0)
//@end
//@ext crypto/commitments.Commit
pub fn cm_Commit(cs: Suite, opening: Slice<u8>, body: Slice<u8>) -> (r: Slice<u8>) ensures r@ == commitment(cs, opening@, body@), r@.len() == hsize(cs), !r.nil@
//@end
pub uninterp spec fn commitment(cs: Suite, opening: Seq<u8>, body: Seq<u8>) -> Seq<u8>;
// C20: what a VRF public key accepts
pub uninterp spec fn vrf_ok(k: VrfPub, m: Seq<u8>, proof_: Seq<u8>, out: Seq<u8>) -> bool;
//@ext crypto/vrf.PublicKey.Verify
pub fn vp_Verify(k: VrfPub, m: Slice<u8>, proof_: Slice<u8>) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> vrf_ok(k, m@, proof_@, r.0@)
//@end
// the handle a provider asks: nothing is assumed about what it answers
#[verifier::external_body]
pub fn Handle_of_al_ReceivedProofHandle(h: al_ReceivedProofHandle) -> (r: Handle) ensures !r.nil@, r.log@.len() == 0 { unimplemented!() }

// ---- the versions a proof handle knows
pub open spec fn opt_eq(a: Slice<u8>, b: Slice<u8>) -> bool { a.nil@ == b.nil@ && a@ == b@ }
pub open spec fn entry_size(cs: Suite, e: px_Entry) -> bool { e.VrfOutput@.len() == hsize(cs) && (!e.Commitment.nil@ ==> e.Commitment@.len() == hsize(cs)) }
pub open spec fn added(cs: Suite, a: Map<u32, px_Entry>, b: Map<u32, px_Entry>, ver: u32, out: Slice<u8>, com: Slice<u8>) -> bool {
    &&& b.dom().contains(ver) && b[ver].VrfOutput@ == out@ && (!com.nil@ ==> !b[ver].Commitment.nil@ && b[ver].Commitment@ == com@)
    &&& forall|v: u32| #[trigger] a.dom().contains(v) ==> b.dom().contains(v) && b[v].VrfOutput@ == a[v].VrfOutput@ && (!a[v].Commitment.nil@ ==> !b[v].Commitment.nil@ && b[v].Commitment@ == a[v].Commitment@)
    &&& forall|v: u32| v != ver && #[trigger] b.dom().contains(v) ==> a.dom().contains(v) && b[v] == a[v]
    &&& forall|v: u32| #[trigger] b.dom().contains(v) ==> a.dom().contains(v) || entry_size(cs, b[v])
}
//@go tree/transparency/algorithms.addVersion
pub fn al_addVersion(cs: Suite, versions_r: &mut GoMap<u32, px_Entry>, ver: u32, vrfOutput: Slice<u8>, commitment_: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(versions_r).nil@
    ensures !final(versions_r).nil@, r.is_some() ==> *final(versions_r) == *old(versions_r), r.is_none() ==> added(cs, old(versions_r)@, final(versions_r)@, ver, vrfOutput, commitment_),
//@end
//@go tree/transparency/algorithms.NewReceivedProofHandle
pub fn al_NewReceivedProofHandle(cs: Suite, inner: st_CombinedTreeProof) -> (r: al_ReceivedProofHandle) ensures r.cs == cs, !r.versions.nil@, r.versions@ == Map::<u32, px_Entry>::empty()
//@end
//@go tree/transparency/algorithms.ReceivedProofHandle.AddVersion
pub fn al_AddVersion(rph_r: &mut al_ReceivedProofHandle, ver: u32, vrfOutput: Slice<u8>, commitment_: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(rph_r).versions.nil@
    ensures !final(rph_r).versions.nil@, final(rph_r).cs == old(rph_r).cs, r.is_none() ==> added(old(rph_r).cs, old(rph_r).versions@, final(rph_r).versions@, ver, vrfOutput, commitment_),
        r.is_some() ==> final(rph_r).versions == old(rph_r).versions,
//@end
// ---- the verifier
pub open spec fn last_of(s: Option<st_ClientState>) -> Option<u64> { match s { None => None, Some(x) => Some(x.TreeHead.TreeSize) } }
pub open spec fn head_size(f: st_FullTreeHead, last: Option<u64>) -> Option<u64> { if f.TreeHead.is_some() { Some(f.TreeHead.unwrap().TreeSize) } else { last } }
pub open spec fn aud_size(f: st_FullTreeHead) -> Option<u64> { match f.AuditorTreeHead { None => None, Some(a) => Some(a.TreeSize) } }
// keys are there where the configuration needs them
pub open spec fn cfg_ok(c: st_PublicConfig) -> bool { !c.SignatureKey.nil@ && (c.Config.Mode == 3 ==> !c.Config.AuditorPublicKey.nil@) && (c.Config.Mode == 2 ==> !c.Config.LeafPublicKey.nil@) }
// the verifier is for this response, given what was retained
pub open spec fn vok(v: tr_verifier) -> bool {
    &&& cfg_ok(v.config) && wf(v.provider) && v.provider.cs == v.config.Config.Suite && !v.provider.handle.nil@ && v.handle.cs == v.config.Config.Suite && !v.handle.versions.nil@
    &&& v.m == last_of(v.state) && head_size(v.fth, v.m) == Some(v.n) && v.nP == aud_size(v.fth)
    &&& (v.state.is_some() ==> v.provider.fullSubtrees == v.state.unwrap().FullSubtrees && v.provider.logEntries == v.state.unwrap().LogEntries && known_kept(v.provider, v.state.unwrap().LogEntries@))
    &&& (v.state.is_none() ==> v.provider.logEntries@ == Map::<u64, st_LogEntry>::empty())
}
pub open spec fn known_kept(dp: al_DataProvider, m: Map<u64, st_LogEntry>) -> bool {
    forall|x: u64| #[trigger] m.dom().contains(x) ==> dp.timestamps@.dom().contains(x) && dp.timestamps@[x] == m[x].Timestamp && dp.prefixTrees@.dom().contains(x) && dp.prefixTrees@[x] == m[x].PrefixTree
}
//@go tree/transparency.newVerifier
pub fn tr_newVerifier(config: st_PublicConfig, state: Option<st_ClientState>, last: Option<u64>, fth: st_FullTreeHead, proof_: st_CombinedTreeProof) -> (r: (tr_verifier, Option<GoErr>))
    requires cfg_ok(config), last == last_of(state)
    ensures r.1.is_none() ==> vok(r.0) && r.0.config == config && r.0.state == state && r.0.fth == fth && r.0.handle.versions@ == Map::<u32, px_Entry>::empty(),
//@end
// ---- the tree head
pub open spec fn root_of_full(cs: Suite, n: u64, full: Seq<Slice<u8>>) -> Seq<u8> { fold_root(cs, froot(n as int), vals(full), 0).1 }
// the head is new, larger than the retained one, and signed
pub open spec fn head_ok(c: st_PublicConfig, state: Option<st_ClientState>, h: st_TreeHead, root: Seq<u8>) -> bool {
    (state.is_some() ==> h.TreeSize > state.unwrap().TreeHead.TreeSize) && sig_ok(c.SignatureKey, enc_th(c, h.TreeSize, root), h.Signature@)
}
pub open spec fn auditor_ok(c: st_PublicConfig, state: Option<st_ClientState>, n: u64, ts: u64, a: st_AuditorTreeHead, rootP: Seq<u8>) -> bool {
    &&& (state.is_some() ==> state.unwrap().AuditorTreeHead.is_some() && state.unwrap().AuditorTreeHead.unwrap().TreeSize >= c.Config.AuditorStartPos)
    &&& a.TreeSize <= n && a.Timestamp <= ts && ts - a.Timestamp <= c.Config.MaxAuditorLag
    &&& sig_ok(c.Config.AuditorPublicKey, enc_ath(c, a.Timestamp, a.TreeSize, rootP), a.Signature@)
}
//@go tree/transparency.verifier.verifyTreeHead
pub fn tr_verifyTreeHead(v_r: &mut tr_verifier, root: Slice<u8>, rootP: Slice<u8>) -> (r: Option<GoErr>)
    requires vok(*old(v_r)), old(v_r).n > 0, has_ts(old(v_r).provider, (old(v_r).n - 1) as u64)
    ensures *final(v_r) == *old(v_r),
        r.is_none() ==> match old(v_r).fth.TreeHead { None => old(v_r).state.is_some(), Some(h) => head_ok(old(v_r).config, old(v_r).state, h, root@)
            && (old(v_r).config.Config.Mode != 3 ==> old(v_r).fth.AuditorTreeHead.is_none())
            && (old(v_r).config.Config.Mode == 3 ==> old(v_r).fth.AuditorTreeHead.is_some() && auditor_ok(old(v_r).config, old(v_r).state, old(v_r).n, old(v_r).provider.timestamps@[(old(v_r).n - 1) as u64], old(v_r).fth.AuditorTreeHead.unwrap(), rootP@)) },
//@end
// what holds of every log that has the new full subtrees: what was revealed is
// its entries', what was retained is its earlier full subtrees, and so is what
// the auditor signed
pub open spec fn in_log(cs: Suite, dp: al_DataProvider, n: u64, old: Option<st_ClientState>, nP: Option<u64>, aud: Seq<Slice<u8>>, l: Log) -> bool {
    &&& revealed_in(dp, l, n as int)
    &&& (old.is_some() ==> vals_at(cs, l, froot(old.unwrap().TreeHead.TreeSize as int), old.unwrap().FullSubtrees@))
    &&& vals_at(cs, l, opt_froot(nP), aud)
}
pub open spec fn head_moves(c: st_PublicConfig, old: Option<st_ClientState>, f: st_FullTreeHead, ts: u64, new: st_ClientState, aud: Seq<Slice<u8>>) -> bool {
    match f.TreeHead {
        None => old.is_some() && new.TreeHead == old.unwrap().TreeHead && new.AuditorTreeHead == old.unwrap().AuditorTreeHead,
        Some(h) => new.TreeHead == h && new.AuditorTreeHead == f.AuditorTreeHead && head_ok(c, old, h, root_of_full(c.Config.Suite, h.TreeSize, new.FullSubtrees@))
            && (c.Config.Mode != 3 ==> new.AuditorTreeHead.is_none())
            && (c.Config.Mode == 3 ==> new.AuditorTreeHead.is_some() && auditor_ok(c, old, h.TreeSize, ts, new.AuditorTreeHead.unwrap(), root_of_full(c.Config.Suite, new.AuditorTreeHead.unwrap().TreeSize, aud))),
    }
}
pub open spec fn full_of(cs: Suite, n: u64, f: Seq<Slice<u8>>) -> bool { okn(n) && f.len() == froot(n as int).len() && sized(cs, f) && fold_used(cs, froot(n as int), vals(f), 0) }
pub open spec fn is_logn(cs: Suite, l: Log, n: u64) -> bool { is_log(cs, l, 2 * n - 1) }
// new is a state that may be retained after old, given the answer's tree head f
pub open spec fn accepted(c: st_PublicConfig, old: Option<st_ClientState>, f: st_FullTreeHead, dp: al_DataProvider, new: st_ClientState) -> bool {
    let cs = c.Config.Suite; let n = new.TreeHead.TreeSize;
    &&& full_of(cs, n, new.FullSubtrees@) && has_ts(dp, (n - 1) as u64) && retains(dp, n as int, new.LogEntries@)
    &&& (old.is_some() ==> old.unwrap().TreeHead.TreeSize <= n && dp.logEntries == old.unwrap().LogEntries && known_kept(dp, old.unwrap().LogEntries@)) && (old.is_none() ==> dp.logEntries@ == Map::<u64, st_LogEntry>::empty())
    &&& dp.cs == cs && wf(dp)
    &&& exists|aud: Seq<Slice<u8>>| (#[trigger] head_moves(c, old, f, dp.timestamps@[(n - 1) as u64], new, aud)) && (aud_size(f).is_some() ==> full_of(cs, aud_size(f).unwrap(), aud))
        && forall|l: Log| is_logn(cs, l, n) && #[trigger] vals_at(cs, l, froot(n as int), new.FullSubtrees@) ==> in_log(cs, dp, n, old, aud_size(f), aud, l)
}
//@go tree/transparency.verifier.finish
pub fn tr_finish(v_r: &mut tr_verifier) -> (r: (Option<st_ClientState>, Option<GoErr>))
    requires vok(*old(v_r)), old(v_r).n > 0 ==> has_ts(old(v_r).provider, (old(v_r).n - 1) as u64)
    ensures r.1.is_none() ==> r.0.is_some() && accepted(old(v_r).config, old(v_r).state, old(v_r).fth, final(v_r).provider, r.0.unwrap()), final(v_r).handle == old(v_r).handle, vok(*final(v_r)), final(v_r).config == old(v_r).config, final(v_r).n == old(v_r).n, final(v_r).provider.timestamps == old(v_r).provider.timestamps, r.1.is_none() ==> r.0.unwrap().TreeHead.TreeSize == old(v_r).n,
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost v0 = v; let ghost mut aud = Seq::<Slice<u8>>::empty(); let ghost mut full = Seq::<Slice<u8>>::empty(); let ghost mut dp = v.provider;
//@hint after call al_Finish 1
    proof { if RES1.is_none() { aud = RES0.Additional@; full = RES0.FullSubtrees@; } dp = v.provider; }
//@hint return 5
    proof {
        let new = ret.0.unwrap(); let c = v0.config; let cs = c.Config.Suite; let f = v0.fth; let n = new.TreeHead.TreeSize;
        assert(n == v0.n); assert(new.FullSubtrees@ == full); assert(v.provider == dp);
        assert(full_of(cs, n, full));
        assert(retains(dp, n as int, new.LogEntries@));
        assert forall|l: Log| is_logn(cs, l, n) && #[trigger] vals_at(cs, l, froot(n as int), new.FullSubtrees@) implies in_log(cs, dp, n, v0.state, aud_size(f), aud, l) by { }
        assert(aud_size(f).is_some() ==> full_of(cs, aud_size(f).unwrap(), aud));
        assert(head_moves(c, v0.state, f, dp.timestamps@[(n - 1) as u64], new, aud));
        assert(known_kept(dp, v0.provider.logEntries@) || v0.state.is_none());
        assert(accepted(c, v0.state, f, dp, new));
    }
//@end
// what the client retains is true: of every log with the retained full subtrees
pub open spec fn entry_of(cs: Suite, l: Log, m: Map<u64, st_LogEntry>, x: u64) -> bool { l(x as int) == leaf_hash(cs, m[x].Timestamp, m[x].PrefixTree@) }
pub open spec fn state_true(cs: Suite, s: st_ClientState) -> bool {
    let n = s.TreeHead.TreeSize;
    &&& full_of(cs, n, s.FullSubtrees@) && entries_mono(s.LogEntries@)
    &&& forall|x: u64| #[trigger] s.LogEntries@.dom().contains(x) <==> spine(x as int, n as int)
    &&& forall|l: Log, x: u64| is_logn(cs, l, n) && #[trigger] vals_at(cs, l, froot(n as int), s.FullSubtrees@) && #[trigger] s.LogEntries@.dom().contains(x) ==> entry_of(cs, l, s.LogEntries@, x)
}
pub proof fn prop_state_true(c: st_PublicConfig, old: Option<st_ClientState>, f: st_FullTreeHead, dp: al_DataProvider, new: st_ClientState)
    requires accepted(c, old, f, dp, new), old.is_some() ==> state_true(c.Config.Suite, old.unwrap())
    ensures state_true(c.Config.Suite, new)
{
    let cs = c.Config.Suite; let n = new.TreeHead.TreeSize;
    let aud = choose|aud: Seq<Slice<u8>>| (#[trigger] head_moves(c, old, f, dp.timestamps@[(n - 1) as u64], new, aud)) && (aud_size(f).is_some() ==> full_of(cs, aud_size(f).unwrap(), aud))
        && forall|l: Log| is_logn(cs, l, n) && #[trigger] vals_at(cs, l, froot(n as int), new.FullSubtrees@) ==> in_log(cs, dp, n, old, aud_size(f), aud, l);
    assert forall|l: Log, x: u64| is_logn(cs, l, n) && #[trigger] vals_at(cs, l, froot(n as int), new.FullSubtrees@) && #[trigger] new.LogEntries@.dom().contains(x) implies entry_of(cs, l, new.LogEntries@, x) by {
        assert(in_log(cs, dp, n, old, aud_size(f), aud, l));
        if dp.logEntries@.dom().contains(x) {
            let o = old.unwrap(); let m = o.TreeHead.TreeSize;
            assert(is_logn(cs, l, m));
            assert(vals_at(cs, l, froot(m as int), o.FullSubtrees@));
            assert(entry_of(cs, l, o.LogEntries@, x));
        } else { assert(entry_in(dp, l, n as int, x)); }
    }
}
// C16: the new head is the old one or a larger one that is signed; and if the
// root that was signed is that of the log l, then l has everything the client
// was shown, and extends what it retained before
pub proof fn prop_client_view(c: st_PublicConfig, old: Option<st_ClientState>, f: st_FullTreeHead, dp: al_DataProvider, new: st_ClientState, l: Log)
    requires accepted(c, old, f, dp, new), f.TreeHead.is_some(), is_logn(c.Config.Suite, l, new.TreeHead.TreeSize),
        root_of_full(c.Config.Suite, new.TreeHead.TreeSize, new.FullSubtrees@) == log_root(c.Config.Suite, l, new.TreeHead.TreeSize as int),
        fold_used(c.Config.Suite, froot(new.TreeHead.TreeSize as int), true_full(c.Config.Suite, l, new.TreeHead.TreeSize as int), 0),
    ensures old.is_some() ==> old.unwrap().TreeHead.TreeSize < new.TreeHead.TreeSize && vals_at(c.Config.Suite, l, froot(old.unwrap().TreeHead.TreeSize as int), old.unwrap().FullSubtrees@),
        sig_ok(c.SignatureKey, enc_th(c, new.TreeHead.TreeSize, log_root(c.Config.Suite, l, new.TreeHead.TreeSize as int)), new.TreeHead.Signature@),
        revealed_in(dp, l, new.TreeHead.TreeSize as int),
        c.Config.Mode == 3 ==> new.AuditorTreeHead.is_some() && auditor_ok(c, old, new.TreeHead.TreeSize, dp.timestamps@[(new.TreeHead.TreeSize - 1) as u64], new.AuditorTreeHead.unwrap(), log_root(c.Config.Suite, l, new.AuditorTreeHead.unwrap().TreeSize as int)),
{
    let cs = c.Config.Suite; let n = new.TreeHead.TreeSize; let f0 = new.FullSubtrees@;
    let aud = choose|aud: Seq<Slice<u8>>| (#[trigger] head_moves(c, old, f, dp.timestamps@[(n - 1) as u64], new, aud)) && (aud_size(f).is_some() ==> full_of(cs, aud_size(f).unwrap(), aud))
        && forall|l: Log| is_logn(cs, l, n) && #[trigger] vals_at(cs, l, froot(n as int), new.FullSubtrees@) ==> in_log(cs, dp, n, old, aud_size(f), aud, l);
    root_exists(2 * n - 1); fsubs_props(root_of(2 * n - 1), 2 * n - 1);
    let t = true_full(cs, l, n as int);
    let xs = froot(n as int);
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).len() == hsize(cs) by { mv_len(cs, l, xs[k] as int, 2 * n - 1); };
    assert forall|k: int| 0 <= k < vals(f0).len() implies (#[trigger] vals(f0)[k]).len() == hsize(cs) by { assert(f0[k]@.len() == hsize(cs)); };
    root_inj(cs, xs, vals(f0), t, 0);
    assert forall|i: int| 0 <= i < xs.len() implies (#[trigger] f0[i])@ == mv(cs, l, xs[i] as int) by { assert(vals(f0)[i] == f0[i]@); assert(t[i] == mv(cs, l, xs[i] as int)); };
    assert(vals_at(cs, l, xs, f0));
    assert(in_log(cs, dp, n, old, aud_size(f), aud, l));
    if c.Config.Mode == 3 {
        let m = new.AuditorTreeHead.unwrap().TreeSize;
        assert(vals_at(cs, l, froot(m as int), aud));
        assert(vals(aud) =~= true_full(cs, l, m as int));
    }
}

// ---- requests and label states
//@emit tree/transparency/structs.LabelOwnerState tree/transparency/structs.BinaryLadderStep tree/transparency/structs.RetainedVersion
//@go tree/transparency.getLast
pub fn tr_getLast(state: Option<st_ClientState>) -> (r: Option<u64>) ensures r == last_of(state)
//@end
pub open spec fn owner_fits(o: st_LabelOwnerState) -> bool { o.VerAtStarting >= -1 && o.VerAtStarting + o.UpcomingVers@.len() < 0x1_0000_0000 }
//@go tree/transparency.greatestVersion
pub fn tr_greatestVersion(owner: Option<st_LabelOwnerState>) -> (r: Option<u32>)
    requires owner.is_some(), owner_fits(owner.unwrap())
    ensures r == (if owner.unwrap().VerAtStarting + owner.unwrap().UpcomingVers@.len() >= 0 { Some((owner.unwrap().VerAtStarting + owner.unwrap().UpcomingVers@.len()) as u32) } else { None::<u32> })
//@end
//@go tree/transparency.parseLabelState
pub fn tr_parseLabelState(config: st_PublicConfig, raw: Slice<u8>) -> (r: (st_ClientLabelState, Option<GoErr>))
    ensures r.1.is_none() ==> parsed(r.0, raw)
//@end
pub open spec fn parsed(s: st_ClientLabelState, raw: Slice<u8>) -> bool { if raw.nil@ { s.Contact@.len() == 0 && s.Owner.is_none() && s.Versions@.len() == 0 } else { raw@ == enc_label(s) } }
//@go tree/transparency.Client.getState
pub fn tr_getState(c_r: &mut tr_Client) -> (r: (Option<st_ClientState>, Option<GoErr>))
    ensures *final(c_r) == *old(c_r), r.1.is_none() ==> (match old(c_r).tx.state@ { None => r.0.is_none(), Some(b) => r.0.is_some() && b == enc_state(r.0.unwrap()) })
//@end
//@go tree/transparency.Client.getLabelState
pub fn tr_getLabelState(c_r: &mut tr_Client, label: Slice<u8>) -> (r: (st_ClientLabelState, Option<GoErr>))
    ensures *final(c_r) == *old(c_r), r.1.is_none() ==> stored_as(old(c_r).tx, label@, r.0)
//@end
pub open spec fn stored_as(s: Store, label: Seq<u8>, st: st_ClientLabelState) -> bool {
    if s.labels@.dom().contains(label) { s.labels@[label].0 == enc_label(st) } else { st.Contact@.len() == 0 && st.Owner.is_none() && st.Versions@.len() == 0 }
}
//@go tree/transparency.Client.getStaleLabel
pub fn tr_getStaleLabel(c_r: &mut tr_Client, cutoff: u64) -> (r: (Slice<u8>, st_ClientLabelState, Option<GoErr>))
    ensures *final(c_r) == *old(c_r), r.2.is_none() && !r.0.nil@ ==> old(c_r).tx.labels@.dom().contains(r.0@) && old(c_r).tx.labels@[r.0@].1 <= cutoff && stored_as(old(c_r).tx, r.0@, r.1)
//@end
//@go tree/transparency.Client.putState
pub fn tr_putState(c_r: &mut tr_Client, updated: Option<st_ClientState>) -> (r: Option<GoErr>)
    requires updated.is_some()
    ensures final(c_r).config == old(c_r).config, r.is_some() ==> final(c_r).tx == old(c_r).tx, r.is_none() ==> final(c_r).tx.state@ == Some(enc_state(updated.unwrap())) && final(c_r).tx.labels == old(c_r).tx.labels
//@end
// a label with nothing left to monitor is forgotten
pub open spec fn label_put(a: Store, b: Store, label: Seq<u8>, st: st_ClientLabelState, terminal: u64) -> bool {
    b.labels@ == (if st.Contact@.len() == 0 && st.Owner.is_none() { a.labels@.remove(label) } else { a.labels@.insert(label, (enc_label(st), terminal)) })
}
//@go tree/transparency.Client.putLabelState
pub fn tr_putLabelState(c_r: &mut tr_Client, updated: Option<st_ClientState>, label: Slice<u8>, updatedLabel: st_ClientLabelState, terminal: u64) -> (r: Option<GoErr>)
    requires updated.is_some()
    ensures final(c_r).config == old(c_r).config, r.is_some() ==> final(c_r).tx == old(c_r).tx, r.is_none() ==> final(c_r).tx.state@ == Some(enc_state(updated.unwrap())) && label_put(old(c_r).tx, final(c_r).tx, label@, updatedLabel, terminal)
//@end
//@go tree/transparency.NewClient
pub fn tr_NewClient(config: st_PublicConfig, tx: Store) -> (r: (tr_Client, Option<GoErr>))
    ensures r.1.is_none() ==> r.0.config == config && r.0.tx == tx && (!config.SignatureKey.nil@ ==> cfg_ok(config)) && (config.Config.Mode == 1 || config.Config.Mode == 2 || config.Config.Mode == 3)
        && (config.Config.MaximumLifetime > 0 ==> config.Config.MaximumLifetime > config.Config.ReasonableMonitoringWindow),
//@end
//@go tree/transparency.getDistinguished
pub fn tr_getDistinguished(config: st_PublicConfig, state: Option<st_ClientState>) -> (r: (u64, Option<GoErr>))
    requires state.is_some() ==> okn(state.unwrap().TreeHead.TreeSize) && forall|x: u64| spine(x as int, state.unwrap().TreeHead.TreeSize as int) ==> #[trigger] state.unwrap().LogEntries@.dom().contains(x),
        state.is_some() ==> entries_mono(state.unwrap().LogEntries@)
    ensures r.1.is_none() ==> state.is_some() && r.0 < state.unwrap().TreeHead.TreeSize && spine(r.0 as int, state.unwrap().TreeHead.TreeSize as int)
//@hint before call al_RightmostDistinguished 1
    proof { let m = state.unwrap().LogEntries@; let n = state.unwrap().TreeHead.TreeSize as int;
        assert(okw(n as u64));
        assert forall|x: u64| spine(x as int, n) implies #[trigger] has_ts(provider, x) by { assert(m.dom().contains(x)); assert(provider.timestamps@.dom().contains(x)); } }
//@end
//@go tree/transparency.verifyUpdateValue
pub fn tr_verifyUpdateValue(config: st_PublicConfig, label: Slice<u8>, ver: u32, val: st_UpdateValue) -> (r: Option<GoErr>)
    requires cfg_ok(config)
    ensures r.is_none() ==> value_ok(config, label@, ver, val)
//@end
// with third-party management, the manager signed the value
pub open spec fn value_ok(c: st_PublicConfig, label: Seq<u8>, ver: u32, val: st_UpdateValue) -> bool {
    if c.Config.Mode == 2 { sig_ok(c.Config.LeafPublicKey, enc_ut(c, label, ver, val.Value@), val.UpdateSuffix.Signature@) } else { val.UpdateSuffix.Signature.nil@ }
}
//@go tree/transparency.computeCommitment
pub fn tr_computeCommitment(config: st_PublicConfig, opening: Slice<u8>, label: Slice<u8>, ver: u32, val: st_UpdateValue) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() ==> !r.0.nil@ && r.0@ == commitment(config.Config.Suite, opening@, enc_cv(label@, ver, val))
//@end
// ---- what is known about versions
// b knows everything a does
pub open spec fn knows_more(a: Map<u32, px_Entry>, b: Map<u32, px_Entry>) -> bool {
    forall|v: u32| #[trigger] a.dom().contains(v) ==> b.dom().contains(v) && b[v].VrfOutput@ == a[v].VrfOutput@ && (!a[v].Commitment.nil@ ==> !b[v].Commitment.nil@ && b[v].Commitment@ == a[v].Commitment@)
}
pub open spec fn knows(b: Map<u32, px_Entry>, ver: u32, out: Seq<u8>, com: Slice<u8>) -> bool {
    b.dom().contains(ver) && b[ver].VrfOutput@ == out && (!com.nil@ ==> !b[ver].Commitment.nil@ && b[ver].Commitment@ == com@)
}
//@go tree/transparency.verifier.addLabelState
pub fn tr_addLabelState(v_r: &mut tr_verifier, state: st_ClientLabelState) -> (r: Option<GoErr>)
    requires !old(v_r).handle.versions.nil@
    ensures final(v_r).config == old(v_r).config && final(v_r).state == old(v_r).state && final(v_r).fth == old(v_r).fth && final(v_r).provider == old(v_r).provider && final(v_r).n == old(v_r).n && final(v_r).nP == old(v_r).nP && final(v_r).m == old(v_r).m,
        !final(v_r).handle.versions.nil@, final(v_r).handle.cs == old(v_r).handle.cs,
        r.is_none() ==> knows_more(old(v_r).handle.versions@, final(v_r).handle.versions@) && retained_known(state, final(v_r).handle.versions@, state.Versions@.len() as int),
//@hint entry
    let ghost v0 = v;
//@loop 1
    invariant v.config == v0.config && v.state == v0.state && v.fth == v0.fth && v.provider == v0.provider && v.n == v0.n && v.nP == v0.nP && v.m == v0.m, SEQ == state.Versions, IDX <= SEQ@.len(),
        !v.handle.versions.nil@, v.handle.cs == v0.handle.cs, knows_more(v0.handle.versions@, v.handle.versions@), retained_known(state, v.handle.versions@, IDX as int),
//@end
// what was retained about the label agrees with what this answer said
pub open spec fn retained_known(s: st_ClientLabelState, b: Map<u32, px_Entry>, i: int) -> bool { forall|j: int| 0 <= j < i ==> knows(b, (#[trigger] s.Versions@[j]).Version, s.Versions@[j].VrfOutput@, s.Versions@[j].Commitment) }
// the first i of the ladder's outputs are those the VRF key accepts, for the
// versions the ladder is of, with the commitments computed or else those sent
pub open spec fn com_of(ladder: Seq<st_BinaryLadderStep>, vers: Seq<u32>, manual: Map<u32, Slice<u8>>, j: int) -> Slice<u8> { if manual.dom().contains(vers[j]) { manual[vers[j]] } else { ladder[j].Commitment } }
pub open spec fn ladder_ok(c: st_PublicConfig, label: Seq<u8>, ladder: Seq<st_BinaryLadderStep>, vers: Seq<u32>, manual: Map<u32, Slice<u8>>, b: Map<u32, px_Entry>, i: int) -> bool {
    forall|j: int| 0 <= j < i ==> (manual.dom().contains(vers[j]) ==> ladder[j].Commitment.nil@) && b.dom().contains(#[trigger] vers[j]) && vrf_ok(c.VrfKey, enc_vi(label, vers[j]), ladder[j].Proof@, b[vers[j]].VrfOutput@) && knows(b, vers[j], b[vers[j]].VrfOutput@, com_of(ladder, vers, manual, j))
}
//@go tree/transparency.verifier.processLadder
pub fn tr_processLadder(v_r: &mut tr_verifier, label: Slice<u8>, ladder: Slice<st_BinaryLadderStep>, vers: Slice<u32>, manual: GoMap<u32, Slice<u8>>) -> (r: Option<GoErr>)
    requires !old(v_r).handle.versions.nil@
    ensures final(v_r).config == old(v_r).config && final(v_r).state == old(v_r).state && final(v_r).fth == old(v_r).fth && final(v_r).provider == old(v_r).provider && final(v_r).n == old(v_r).n && final(v_r).nP == old(v_r).nP && final(v_r).m == old(v_r).m,
        !final(v_r).handle.versions.nil@, final(v_r).handle.cs == old(v_r).handle.cs,
        r.is_none() ==> ladder@.len() == vers@.len() && knows_more(old(v_r).handle.versions@, final(v_r).handle.versions@) && ladder_ok(old(v_r).config, label@, ladder@, vers@, manual@, final(v_r).handle.versions@, vers@.len() as int),
//@hint entry
    let ghost v0 = v;
//@loop 1
    invariant v.config == v0.config && v.state == v0.state && v.fth == v0.fth && v.provider == v0.provider && v.n == v0.n && v.nP == v0.nP && v.m == v0.m, SEQ == vers, IDX <= SEQ@.len(), ladder@.len() == vers@.len(),
        !v.handle.versions.nil@, v.handle.cs == v0.handle.cs, knows_more(v0.handle.versions@, v.handle.versions@), ladder_ok(v.config, label@, ladder@, vers@, manual@, v.handle.versions@, IDX as int),
//@end
