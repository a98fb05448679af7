//@import client.vrs label.vrs view.vrs monitor.vrs
//@nonnil tree/transparency/algorithms.Monitor
// ---- C16: monitoring answers, from the response to the retained state
pub uninterp spec fn contact_answer(t: TBS) -> Option<st_ContactMonitorResponse>;
pub uninterp spec fn owner_answer(t: TBS) -> Option<st_OwnerMonitorResponse>;
#[verifier::external_body]
pub fn is_st_ContactMonitorResponse(t: TBS) -> (r: bool) ensures r == contact_answer(t).is_some() { unimplemented!() }
#[verifier::external_body]
pub fn lookup_st_ContactMonitorResponse(t: TBS) -> (r: Option<st_ContactMonitorResponse>) ensures r == contact_answer(t) { unimplemented!() }
#[verifier::external_body]
pub fn is_st_OwnerMonitorResponse(t: TBS) -> (r: bool) ensures r == owner_answer(t).is_some() { unimplemented!() }
#[verifier::external_body]
pub fn lookup_st_OwnerMonitorResponse(t: TBS) -> (r: Option<st_OwnerMonitorResponse>) ensures r == owner_answer(t) { unimplemented!() }
pub open spec fn fresh(c: st_PublicConfig, dp: al_DataProvider, n: int) -> bool { exists|now: int| clock(now) && #[trigger] in_window(c, dp.timestamps@[(n - 1) as u64] as int, now) }
pub open spec fn size_of(s: Option<st_ClientState>) -> int { match s { None => 0, Some(x) => x.TreeHead.TreeSize as int } }
// what is kept of a label is about the tree the client knows
pub open spec fn label_good(s: st_ClientLabelState, n: int) -> bool {
    (forall|i: int| 0 <= i < s.Contact@.len() ==> (#[trigger] s.Contact@[i]).Position < n)
        && (s.Owner.is_some() ==> sorted_u64(s.Owner.unwrap().UpcomingVers@) && s.Owner.unwrap().VerAtStarting >= -1 && s.Owner.unwrap().VerAtStarting + s.Owner.unwrap().UpcomingVers@.len() < 0xffff_ffff)
}
// every entry that is needed showed the version, or a greater one, and what
// did not reach a distinguished entry goes on being monitored
pub open spec fn contacts_seen(a: al_Monitor, b: al_Monitor, dp1: al_DataProvider) -> bool {
    &&& forall|f: spec_fn(int) -> int, x: u64, y: u64| #[trigger] agree(dp1.timestamps@, f) && #[trigger] ptrs_of(a.Contact).dom().contains(x)
            && #[trigger] need(a.config, a.treeSize as int, f, x as int, y as int) && !exempt(a.config, a.treeSize as int, f, a.Owner, y as int)
            ==> watched(a.provider.handle.log@.len() as int, dp1, y as int, ptrs_of(a.Contact)[x] as int)
    &&& forall|f: spec_fn(int) -> int, x: u64| #[trigger] agree(dp1.timestamps@, f) && #[trigger] ptrs_of(a.Contact).dom().contains(x) && open_end(a.config, a.treeSize as int, f, x as int)
            ==> has_top(a.treeSize as int, ptrs_of(b.Contact), x as int, ptrs_of(a.Contact)[x] as int)
}
pub open spec fn starts(m: al_Monitor, c: st_PublicConfig, n: int, s0: st_ClientLabelState) -> bool {
    m.config == c && m.treeSize == n && m.Contact.is_some() && last_entry(s0.Contact@, s0.Contact@.len() as int, ptrs_of(m.Contact))
}
pub open spec fn contact_watched(c: st_PublicConfig, n: int, s0: st_ClientLabelState, s1: st_ClientLabelState, own: Option<al_OwnerState>, dp1: al_DataProvider) -> bool {
    exists|m0: al_Monitor, m1: al_Monitor| starts(m0, c, n, s0) && m0.Owner == own && #[trigger] contacts_seen(m0, m1, dp1) && good(m0.provider, dp1) && lists(s1.Contact@, ptrs_of(m1.Contact))
}
pub open spec fn contact_stored(c: st_PublicConfig, n: int, s0: st_ClientLabelState, a: Store, b: Store, label: Seq<u8>, dp: al_DataProvider, dp1: al_DataProvider) -> bool {
    exists|s1: st_ClientLabelState, m: Map<u32, px_Entry>, t: u64| #[trigger] label_put(a, b, label, s1, t) && #[trigger] retained_for(s1, m) && retained_known(s0, m, s0.Versions@.len() as int) && s1.Owner == s0.Owner && last_dist(c, n, dp, Some(t)) && contact_watched(c, n, s0, s1, None, dp1)
}
pub open spec fn contact_accepted(c: st_PublicConfig, state: Option<st_ClientState>, s0: st_ClientLabelState, req: st_ContactMonitorRequest, res: st_ContactMonitorResponse, a: Store, b: Store, dp: al_DataProvider, dp1: al_DataProvider, new: st_ClientState) -> bool {
    let n = new.TreeHead.TreeSize as int;
    &&& accepted(c, state, res.FullTreeHead, dp, new) && b.state@ == Some(enc_state(new))
    &&& dp1.timestamps == dp.timestamps && fresh(c, dp, n) && contact_stored(c, n, s0, a, b, req.Label@, dp, dp1)
}
//@go tree/transparency.Client.contactMonitor!
pub fn tr_contactMonitor_verify(c_r: &mut tr_Client, state: Option<st_ClientState>, labelState_r: &mut st_ClientLabelState, req: Option<st_ContactMonitorRequest>, marsh: TBS) -> (r: Option<GoErr>)
    requires cfg_ok(old(c_r).config), req.is_some(), req.unwrap().Last == last_of(state), label_good(*old(labelState_r), size_of(state))
    ensures final(c_r).config == old(c_r).config, r.is_some() ==> final(c_r).tx == old(c_r).tx,
        r.is_none() ==> contact_answer(marsh).is_some() && exists|dp: al_DataProvider, dp1: al_DataProvider, new: st_ClientState| #[trigger] contact_accepted(old(c_r).config, state, *old(labelState_r), req.unwrap(), contact_answer(marsh).unwrap(), old(c_r).tx, final(c_r).tx, dp, dp1, new)
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost c0 = c; let ghost s0 = labelState; let ghost mut dpv = Seq::<al_DataProvider>::empty(); let ghost mut dpf = dpv; let ghost mut mm = Seq::<al_Monitor>::empty(); let ghost mut tt = 0u64; let ghost mut m1 = mm;
//@hint after call al_UpdateView 1
    proof { if RES.is_none() && v.n > 0 { assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint before call al_ContactMonitor 1
    proof { mm = seq![monitor]; assert(fresh(c0.config, v.provider, v.n as int));
        assert(forall|x: u64| #[trigger] monitor.Contact.unwrap().Ptrs@.dom().contains(x) ==> x < v.n); }
//@hint after call al_ContactMonitor 1
    // the monitor's provider is the verifier's
    v.provider = monitor.provider;
    proof { if RES.is_none() { dpv = seq![v.provider]; m1 = seq![monitor]; assert(contacts_seen(mm[0], monitor, v.provider)); assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint after call tr_finish 1
    proof { if RES1.is_none() { dpf = seq![v.provider]; assert(v.provider.timestamps == dpv[0].timestamps); assert(fresh(c0.config, dpf[0], v.n as int));
        assert forall|x: u64| spine(x as int, v.n as int) implies #[trigger] has_ts(v.provider, x) by { assert(RES0.unwrap().LogEntries@.dom().contains(x)); } } }
//@hint after call al_RightmostDistinguished 1
    proof { assert(v.provider == dpf[0]); if RES1.is_none() { assert(last_dist(c0.config, v.n as int, dpf[0], RES0)); } }
//@hint after call tr_putLabelState 1
    proof { if RES.is_none() {
        let n = v.n as int;
        assert(contact_watched(c0.config, n, s0, labelState, None, dpv[0])) by { assert(contacts_seen(mm[0], m1[0], dpv[0])); assert(starts(mm[0], c0.config, n, s0)); }
        assert(contact_stored(c0.config, n, s0, c0.tx, c.tx, req.unwrap().Label@, dpf[0], dpv[0])) by { assert(label_put(c0.tx, c.tx, req.unwrap().Label@, labelState, terminal.unwrap()) && retained_for(labelState, v.handle.versions@)); };
        assert(contact_accepted(c0.config, state, s0, req.unwrap(), contact_answer(marsh).unwrap(), c0.tx, c.tx, dpf[0], dpv[0], updated.unwrap())); } }
//@end
// ---- the owner's
pub open spec fn owner_of(s: st_LabelOwnerState) -> al_OwnerState { al_OwnerState { Starting: s.Starting, VerAtStarting: s.VerAtStarting, UpcomingVers: s.UpcomingVers } }
// every distinguished entry since the last one checked, up to the new one,
// showed the owner's version; the new one was checked
pub open spec fn owner_seen(a: al_Monitor, b: al_Monitor, dp1: al_DataProvider) -> bool {
    let o = a.Owner.unwrap(); let p = b.Owner.unwrap(); let k = a.provider.handle.log@.len() as int;
    &&& p.Starting == o.Starting || p.Starting > o.Starting && p.Starting < a.treeSize && checked(k, dp1, p.Starting as int, ver_at(o, p.Starting as int))
    &&& forall|y: int| y >= p.Starting ==> #[trigger] ver_at(p, y) == ver_at(o, y)
    &&& forall|f: spec_fn(int) -> int, y: int| sticky() && #[trigger] agree(dp1.timestamps@, f) && #[trigger] dist(a.config, a.treeSize as int, f, y) && o.Starting < y <= p.Starting ==> checked(k, dp1, y, ver_at(o, y))
}
pub open spec fn owner_watched(c: st_PublicConfig, n: int, o: al_OwnerState, p: al_OwnerState, dp1: al_DataProvider) -> bool {
    exists|m0: al_Monitor, m1: al_Monitor| m0.config == c && m0.treeSize == n && m0.Owner == Some(o) && m1.Owner == Some(p) && #[trigger] owner_seen(m0, m1, dp1) && good(m0.provider, dp1)
}
pub open spec fn owner_stored(c: st_PublicConfig, n: int, s0: st_ClientLabelState, a: Store, b: Store, label: Seq<u8>, dpc: al_DataProvider, dp1: al_DataProvider) -> bool {
    exists|s1: st_ClientLabelState, m: Map<u32, px_Entry>, t: u64| #[trigger] label_put(a, b, label, s1, t) && #[trigger] retained_for(s1, m) && retained_known(s0, m, s0.Versions@.len() as int)
        && s1.Owner.is_some() && t == s1.Owner.unwrap().Starting && contact_watched(c, n, s0, s1, Some(owner_of(s0.Owner.unwrap())), dpc) && owner_watched(c, n, owner_of(s0.Owner.unwrap()), owner_of(s1.Owner.unwrap()), dp1)
}
pub open spec fn owner_accepted(c: st_PublicConfig, state: Option<st_ClientState>, s0: st_ClientLabelState, req: st_OwnerMonitorRequest, res: st_OwnerMonitorResponse, a: Store, b: Store, dp: al_DataProvider, dpc: al_DataProvider, dp1: al_DataProvider, new: st_ClientState) -> bool {
    let n = new.TreeHead.TreeSize as int;
    &&& accepted(c, state, res.FullTreeHead, dp, new) && b.state@ == Some(enc_state(new))
    &&& dp1.timestamps == dp.timestamps && good(dpc, dp1) && fresh(c, dp, n) && owner_stored(c, n, s0, a, b, req.Label@, dpc, dp1)
}
//@go tree/transparency.Client.ownerMonitor!
pub fn tr_ownerMonitor_verify(c_r: &mut tr_Client, state: Option<st_ClientState>, labelState_r: &mut st_ClientLabelState, req: Option<st_OwnerMonitorRequest>, marsh: TBS) -> (r: Option<GoErr>)
    requires cfg_ok(old(c_r).config), req.is_some(), req.unwrap().Last == last_of(state), label_good(*old(labelState_r), size_of(state)), old(labelState_r).Owner.is_some()
    ensures final(c_r).config == old(c_r).config, r.is_some() ==> final(c_r).tx == old(c_r).tx,
        r.is_none() ==> owner_answer(marsh).is_some() && exists|dp: al_DataProvider, dpc: al_DataProvider, dp1: al_DataProvider, new: st_ClientState| #[trigger] owner_accepted(old(c_r).config, state, *old(labelState_r), req.unwrap(), owner_answer(marsh).unwrap(), old(c_r).tx, final(c_r).tx, dp, dpc, dp1, new)
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost c0 = c; let ghost s0 = labelState; let ghost mut dpc = Seq::<al_DataProvider>::empty(); let ghost mut dpv = dpc; let ghost mut dpf = dpv; let ghost mut mm = Seq::<al_Monitor>::empty(); let ghost mut m1 = mm; let ghost mut m2 = mm;
//@hint after call al_UpdateView 1
    proof { if RES.is_none() && v.n > 0 { assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint before call al_ContactMonitor 1
    proof { mm = seq![monitor]; assert(fresh(c0.config, v.provider, v.n as int)); assert(monitor.Owner == Some(owner_of(s0.Owner.unwrap())));
        assert(forall|x: u64| #[trigger] monitor.Contact.unwrap().Ptrs@.dom().contains(x) ==> x < v.n); }
//@hint after call al_ContactMonitor 1
    // the monitor's provider is the verifier's
    v.provider = monitor.provider;
    proof { if RES.is_none() { dpc = seq![v.provider]; m1 = seq![monitor]; assert(contacts_seen(mm[0], monitor, v.provider)); mon_trans(mm[0], m1[0], m1[0]); } }
//@hint after call al_OwnerMonitor 1
    v.provider = monitor.provider;
    proof { if RES.is_none() { dpv = seq![v.provider]; m2 = seq![monitor]; mon_trans(mm[0], m1[0], monitor); good_trans(mm[0].provider, m1[0].provider, monitor.provider); assert(owner_seen(m1[0], monitor, v.provider)); assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint after call tr_finish 1
    proof { if RES1.is_none() { dpf = seq![v.provider]; assert(v.provider.timestamps == dpv[0].timestamps); assert(fresh(c0.config, dpf[0], v.n as int)); } }
//@hint after call tr_putLabelState 1
    proof { if RES.is_none() {
        let n = v.n as int;
        assert(contact_watched(c0.config, n, s0, labelState, Some(owner_of(s0.Owner.unwrap())), dpc[0])) by { assert(contacts_seen(mm[0], m1[0], dpc[0])); assert(starts(mm[0], c0.config, n, s0)); }
        assert(owner_watched(c0.config, n, owner_of(s0.Owner.unwrap()), owner_of(labelState.Owner.unwrap()), dpv[0])) by { assert(owner_seen(m1[0], m2[0], dpv[0])); }
        assert(owner_stored(c0.config, n, s0, c0.tx, c.tx, req.unwrap().Label@, dpc[0], dpv[0])) by { assert(label_put(c0.tx, c.tx, req.unwrap().Label@, labelState, labelState.Owner.unwrap().Starting) && retained_for(labelState, v.handle.versions@)); };
        assert(owner_accepted(c0.config, state, s0, req.unwrap(), owner_answer(marsh).unwrap(), c0.tx, c.tx, dpf[0], dpc[0], dpv[0], updated.unwrap())); } }
//@end
