//@import client.vrs label.vrs view.vrs monitor.vrs
//@nonnil tree/transparency/algorithms.Monitor
// ---- C16: an owner-init answer, from the response to the retained state
pub open spec fn fresh(c: st_PublicConfig, dp: al_DataProvider, n: int) -> bool { exists|now: int| clock(now) && #[trigger] in_window(c, dp.timestamps@[(n - 1) as u64] as int, now) }
// the ladders are those of the greatest versions, and every one of those has a commitment
pub open spec fn ladders_shown(c: st_PublicConfig, label: Seq<u8>, res: st_OwnerInitResponse, b: Map<u32, px_Entry>) -> bool {
    exists|vs: Seq<u32>| #[trigger] ladder_ok(c, label, res.BinaryLadder@, vs, Map::<u32, Slice<u8>>::empty(), b, vs.len() as int) && res.BinaryLadder@.len() == vs.len()
        && (forall|v: u32| vs.contains(v) <==> #[trigger] in_ladders(res.GreatestVersions@, res.GreatestVersions@.len() as int, v))
        && (forall|i: int| 0 <= i < vs.len() && res.GreatestVersions@.contains(#[trigger] vs[i]) ==> !res.BinaryLadder@[i].Commitment.nil@)
}
// monitoring from start on was set up by what the entries showed
pub open spec fn inited(c: st_PublicConfig, n: int, start: u64, vers: Seq<u32>, dp1: al_DataProvider) -> bool {
    exists|m0: al_Monitor, m1: al_Monitor, xs: Seq<u64>| #[trigger] init_done(m0, m1, start, xs) && m0.config == c && m0.treeSize == n && m1.provider == dp1 && mon_ext(m0, m1) && good(m0.provider, dp1) && vers.len() <= xs.len()
        && init_checked(m0.provider.handle.log@.len() as int, dp1, xs, vers, xs.len() as int)
}
pub open spec fn owner_kept(a: Store, b: Store, label: Seq<u8>, s0: st_ClientLabelState, start: u64, vers: Seq<u32>) -> bool {
    exists|s1: st_ClientLabelState, m: Map<u32, px_Entry>| #[trigger] label_put(a, b, label, s1, start) && #[trigger] retained_for(s1, m) && retained_known(s0, m, s0.Versions@.len() as int) && s1.Contact == s0.Contact
        && s1.Owner.is_some() && s1.Owner.unwrap().Starting == start && s1.Owner.unwrap().VerAtStarting == init_ver(vers, 0) && s1.Owner.unwrap().UpcomingVers@.len() == 0
}
pub open spec fn init_accepted(c: st_PublicConfig, state: Option<st_ClientState>, s0: st_ClientLabelState, req: st_OwnerInitRequest, res: st_OwnerInitResponse, a: Store, b: Store, dp: al_DataProvider, dp1: al_DataProvider, new: st_ClientState, m: Map<u32, px_Entry>) -> bool {
    let n = new.TreeHead.TreeSize as int;
    &&& accepted(c, state, res.FullTreeHead, dp, new) && b.state@ == Some(enc_state(new))
    &&& dp1.timestamps == dp.timestamps && fresh(c, dp, n)
    &&& ladders_shown(c, req.Label@, res, m)
    &&& inited(c, n, req.Start, res.GreatestVersions@, dp1)
    &&& owner_kept(a, b, req.Label@, s0, req.Start, res.GreatestVersions@)
}
//@go tree/transparency.Client.ownerInit!
pub fn tr_ownerInit_verify(c_r: &mut tr_Client, state: Option<st_ClientState>, labelState_r: &mut st_ClientLabelState, req: Option<st_OwnerInitRequest>, res: Option<st_OwnerInitResponse>) -> (r: Option<GoErr>)
    requires cfg_ok(old(c_r).config), req.is_some(), req.unwrap().Last == last_of(state), res.is_some()
    ensures final(c_r).config == old(c_r).config, r.is_some() ==> final(c_r).tx == old(c_r).tx,
        r.is_none() ==> exists|dp: al_DataProvider, dp1: al_DataProvider, new: st_ClientState, m: Map<u32, px_Entry>| #[trigger] init_accepted(old(c_r).config, state, *old(labelState_r), req.unwrap(), res.unwrap(), old(c_r).tx, final(c_r).tx, dp, dp1, new, m)
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost c0 = c; let ghost s0 = labelState; let ghost mut vm = Map::<u32, px_Entry>::empty(); let ghost mut vs = Seq::<u32>::empty(); let ghost mut dpv = Seq::<al_DataProvider>::empty(); let ghost mut dpf = dpv; let ghost mut mm = Seq::<al_Monitor>::empty(); let ghost mut lm = vm;
//@hint after call tr_processLadder 1
    proof { vm = v.handle.versions@; vs = ladder@; }
//@loop 1
    invariant SEQ == res.unwrap().GreatestVersions, IDX <= SEQ@.len(), !greatestVersions.nil@, forall|x: u32| #[trigger] greatestVersions@.dom().contains(x) <==> among(SEQ@, IDX as int, x),
//@loop 2
    invariant SEQ == ladder, IDX <= SEQ@.len(), res.is_some(), res.unwrap().BinaryLadder@.len() == SEQ@.len(), !greatestVersions.nil@, c == c0, labelState == s0,
        forall|x: u32| #[trigger] greatestVersions@.dom().contains(x) <==> res.unwrap().GreatestVersions@.contains(x),
        forall|i: int| 0 <= i < IDX && res.unwrap().GreatestVersions@.contains(#[trigger] ladder@[i]) ==> !res.unwrap().BinaryLadder@[i].Commitment.nil@,
//@hint after loop 2
    proof { assert(ladders_shown(c0.config, req.unwrap().Label@, res.unwrap(), vm)) by { assert(ladder_ok(c0.config, req.unwrap().Label@, res.unwrap().BinaryLadder@, vs, Map::<u32, Slice<u8>>::empty(), vm, vs.len() as int)); } }
//@hint after call al_UpdateView 1
    proof { if RES.is_none() && v.n > 0 { assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint before call al_OwnerInit 1
    proof { mm = seq![monitor]; assert(fresh(c0.config, v.provider, v.n as int)); }
//@hint after call al_OwnerInit 1
    // the monitor's provider is the verifier's
    v.provider = monitor.provider;
    proof { if RES1.is_none() { dpv = seq![v.provider]; assert(inited(c0.config, v.n as int, req.unwrap().Start, res.unwrap().GreatestVersions@, v.provider)) by { assert(init_done(mm[0], monitor, req.unwrap().Start, RES0@)); } assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint after call tr_finish 1
    proof { if RES1.is_none() { dpf = seq![v.provider]; assert(v.provider.timestamps == dpv[0].timestamps); assert(fresh(c0.config, dpf[0], v.n as int)); } }
//@hint after call tr_addLabelState 1
    proof { lm = v.handle.versions@; }
//@hint after call tr_putLabelState 1
    proof { if RES.is_none() {
        assert(owner_kept(c0.tx, c.tx, req.unwrap().Label@, s0, req.unwrap().Start, res.unwrap().GreatestVersions@)) by { assert(label_put(c0.tx, c.tx, req.unwrap().Label@, labelState, req.unwrap().Start) && retained_for(labelState, lm)); };
        assert(init_accepted(c0.config, state, s0, req.unwrap(), res.unwrap(), c0.tx, c.tx, dpf[0], dpv[0], updated.unwrap(), vm)); } }
//@end
