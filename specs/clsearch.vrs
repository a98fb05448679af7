//@import client.vrs label.vrs view.vrs search.vrs
// ---- C16: a search answer, from the response to the retained state
// what is kept of a label is about the tree the client knows
pub open spec fn label_fits(s: st_ClientLabelState, n: int) -> bool { (s.Owner.is_some() ==> owner_in(s.Owner.unwrap())) && forall|i: int| 0 <= i < s.Contact@.len() ==> (#[trigger] s.Contact@[i]).Position < n }
pub open spec fn labels_fit(t: Store, n: int) -> bool { forall|l: Seq<u8>, s: st_ClientLabelState| #[trigger] stored_as(t, l, s) ==> label_fits(s, n) }
pub open spec fn size_of(s: Option<st_ClientState>) -> int { match s { None => 0, Some(x) => x.TreeHead.TreeSize as int } }
pub open spec fn fresh(c: st_PublicConfig, dp: al_DataProvider, n: int) -> bool { exists|now: int| clock(now) && #[trigger] in_window(c, dp.timestamps@[(n - 1) as u64] as int, now) }
// the search that ran, on dp1, ended at t
pub open spec fn found(c: st_PublicConfig, ver: Option<u32>, target: u32, n: int, dp1: al_DataProvider, t: u64) -> bool {
    match ver {
        None => exists|k: int, st: int| starts_at(c, n, dp1, st) && #[trigger] fits_greatest(k, dp1, target, n, st, t as int),
        Some(v) => v == target && exists|k: int| #[trigger] fixed_is(k, dp1, c, n, Fv::At(t as int)) || fixed_is(k, dp1, c, n, Fv::Needs(t as int)) && is_incl(dp1.handle.log@.last(), t, target),
    }
}
// the ladder is that of the target, its proofs are the VRF key's, and the
// value is committed to for the target
pub open spec fn one_com(target: u32, com: Slice<u8>) -> Map<u32, Slice<u8>> { Map::<u32, Slice<u8>>::empty().insert(target, com) }
pub open spec fn value_bound(c: st_PublicConfig, label: Seq<u8>, target: u32, res: st_SearchResponse, b: Map<u32, px_Entry>) -> bool {
    value_ok(c, label, target, res.Value) && exists|com: Slice<u8>| !com.nil@ && com@ == commitment(c.Config.Suite, res.Opening@, enc_cv(label, target, res.Value))
        && #[trigger] ladder_ok(c, label, res.BinaryLadder@, full_ladder(target), one_com(target, com), b, full_ladder(target).len() as int)
}
// what is kept about the label: with contact monitoring, what is not yet
// behind a distinguished log entry goes on being monitored
pub open spec fn label_kept(c: st_PublicConfig, a: Store, b: Store, label: Seq<u8>, n: int, dp: al_DataProvider, target: u32, t: u64) -> bool {
    if c.Config.Mode != 1 { b.labels == a.labels } else {
        ||| b.labels == a.labels && exists|d: u64| t <= d && #[trigger] last_dist(c, n, dp, Some(d))
        ||| exists|s0: st_ClientLabelState, s1: st_ClientLabelState, x: u64, m: Map<u32, px_Entry>| #[trigger] stored_as(a, label, s0) && #[trigger] label_put(a, b, label, s1, x) && #[trigger] retained_for(s1, m)
             && monitors(n, s0.Contact@, s1.Contact@, t, target) && s1.Owner == s0.Owner && ranc_eq(x as int, t as int, n) && retained_known(s0, m, s0.Versions@.len() as int)
    }
}
pub open spec fn search_done(c: st_PublicConfig, state: Option<st_ClientState>, req: st_SearchRequest, res: st_SearchResponse, a: Store, b: Store, dp: al_DataProvider, dp1: al_DataProvider, new: st_ClientState, target: u32, t: u64, m: Map<u32, px_Entry>) -> bool {
    let n = new.TreeHead.TreeSize as int;
    &&& accepted(c, state, res.FullTreeHead, dp, new) && b.state@ == Some(enc_state(new))
    &&& dp1.timestamps == dp.timestamps && fresh(c, dp, n) && found(c, req.Version, target, n, dp1, t)
    &&& (req.Version.is_none() ==> res.Version == Some(target))
    &&& value_bound(c, req.Label@, target, res, m)
    &&& label_kept(c, a, b, req.Label@, n, dp, target, t)
}
//@go tree/transparency.Client.search!
pub fn tr_search_verify(c_r: &mut tr_Client, state: Option<st_ClientState>, req: Option<st_SearchRequest>, res: Option<st_SearchResponse>) -> (r: Option<GoErr>)
    requires cfg_ok(old(c_r).config), req.is_some(), req.unwrap().Last == last_of(state), res.is_some(), labels_fit(old(c_r).tx, size_of(state))
    ensures final(c_r).config == old(c_r).config, r.is_some() ==> final(c_r).tx == old(c_r).tx,
        r.is_none() ==> exists|dp: al_DataProvider, dp1: al_DataProvider, new: st_ClientState, target: u32, t: u64, m: Map<u32, px_Entry>| #[trigger] search_done(old(c_r).config, state, req.unwrap(), res.unwrap(), old(c_r).tx, final(c_r).tx, dp, dp1, new, target, t, m)
//@hint entry
    let ghost c0 = c; let ghost mut vm = Map::<u32, px_Entry>::empty(); let ghost mut dpv = Seq::<al_DataProvider>::empty(); let ghost mut dpf = Seq::<al_DataProvider>::empty(); let ghost mut t0 = 0u64; let ghost mut kk = 0int; let ghost mut l0 = Seq::<st_ClientLabelState>::empty(); let ghost mut lm = vm; let ghost mut lx = 0u64;
//@hint after call tr_processLadder 1
    proof { if RES.is_none() { vm = v.handle.versions@;
        assert(Set::<u32>::empty().union(Set::<u32>::empty()) =~= Set::<u32>::empty()); assert(ladder@ == full_ladder(target));
        assert(value_bound(c0.config, req.unwrap().Label@, target, res.unwrap(), vm)) by { assert(ladder_ok(c0.config, req.unwrap().Label@, res.unwrap().BinaryLadder@, full_ladder(target), one_com(target, commitment), vm, full_ladder(target).len() as int)); } } }
//@hint after call al_UpdateView 1
    proof { if RES.is_none() && v.n > 0 { assert(fresh(c0.config, v.provider, v.n as int)); } }
//@hint before call al_GreatestVersionSearch 1
    proof { kk = v.provider.handle.log@.len() as int; }
//@hint before call al_FixedVersionSearch 1
    proof { kk = v.provider.handle.log@.len() as int; }
//@hint after call al_GreatestVersionSearch 1
    proof { if RES1.is_none() { let st = choose|st: int| starts_at(c0.config, v.n as int, v.provider, st) && #[trigger] fits_greatest(kk, v.provider, target, v.n as int, st, RES0 as int); assert(found(c0.config, req.unwrap().Version, target, v.n as int, v.provider, RES0)); } }
//@hint after call al_FixedVersionSearch 1
    proof { if RES1.is_none() { assert(found(c0.config, req.unwrap().Version, target, v.n as int, v.provider, RES0)); } }
//@hint before call tr_finish 1
    proof { dpv = seq![v.provider]; t0 = terminal; assert(found(c0.config, req.unwrap().Version, target, v.n as int, dpv[0], t0)); assert(fresh(c0.config, dpv[0], v.n as int)); }
//@hint after call tr_finish 1
    proof { if RES1.is_none() { dpf = seq![v.provider]; assert(v.provider.timestamps == dpv[0].timestamps); assert(fresh(c0.config, dpf[0], v.n as int)); 
        assert forall|x: u64| spine(x as int, v.n as int) implies #[trigger] has_ts(v.provider, x) by { assert(RES0.unwrap().LogEntries@.dom().contains(x)); } } }
//@hint after call tr_putState
    proof { if RES.is_none() { 
        assert(label_kept(c0.config, c0.tx, c.tx, req.unwrap().Label@, v.n as int, dpf[0], target, t0));
        assert(search_done(c0.config, state, req.unwrap(), res.unwrap(), c0.tx, c.tx, dpf[0], dpv[0], updated.unwrap(), target, t0, vm)); } }
//@hint after call al_RightmostDistinguished 1
    proof { assert(v.provider == dpf[0]); if RES1.is_none() { assert(last_dist(c0.config, v.n as int, dpf[0], RES0)); } }
//@hint after call tr_getLabelState 1
    proof { l0 = seq![RES0]; }
//@hint after call tr_addLabelState 1
    proof { lm = v.handle.versions@; }
//@hint after call tr_putLabelState 1
    proof { if RES.is_none() { 
        assert(label_kept(c0.config, c0.tx, c.tx, req.unwrap().Label@, v.n as int, dpf[0], target, t0)) by { assert(stored_as(c0.tx, req.unwrap().Label@, l0[0]) && label_put(c0.tx, c.tx, req.unwrap().Label@, labelState, terminal) && retained_for(labelState, lm)); };
        assert(search_done(c0.config, state, req.unwrap(), res.unwrap(), c0.tx, c.tx, dpf[0], dpv[0], updated.unwrap(), target, t0, vm)); } }
//@attr #[verifier::spinoff_prover]
//@end
