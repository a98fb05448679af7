//@import client.vrs label.vrs view.vrs monitor.vrs update.vrs
//@use uladder.vrs
//@nonnil tree/transparency/algorithms.Monitor tree/transparency.StreamVerifier tree/transparency/structs.ClientLabelState
// ---- C16: the values of an update
// the version the i-th value of an update has
pub open spec fn next_ver(o: st_LabelOwnerState) -> u32 { if o.VerAtStarting + o.UpcomingVers@.len() >= 0 { wrapping32(o.VerAtStarting + o.UpcomingVers@.len() + 1) } else { 0 } }
pub open spec fn wrapping32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }
pub open spec fn nth_ver(start: u32, i: int) -> u32 { wrapping32(start + i) }
pub open spec fn nth_value(vals: Seq<st_LabelValue>, info: Seq<st_UpdateInfo>, i: int) -> st_UpdateValue { st_UpdateValue { Value: vals[i].Value, UpdateSuffix: info[i].UpdateSuffix } }
// the commitment to the i-th value, which the manager signed if there is one, is kept for the i-th version
pub open spec fn value_kept(c: st_PublicConfig, label: Seq<u8>, start: u32, vals: Seq<st_LabelValue>, info: Seq<st_UpdateInfo>, coms: Map<u32, Slice<u8>>, i: int) -> bool {
    value_ok(c, label, nth_ver(start, i), nth_value(vals, info, i)) && coms.dom().contains(nth_ver(start, i)) && !coms[nth_ver(start, i)].nil@
        && coms[nth_ver(start, i)]@ == commitment(c.Config.Suite, info[i].Opening@, enc_cv(label, nth_ver(start, i), nth_value(vals, info, i)))
}
//@go tree/transparency.StreamVerifier.verifyValues
//@attr wrap
pub fn tr_verifyValues(sv: tr_StreamVerifier, values: Slice<st_LabelValue>, res: Option<st_UpdateResponse>) -> (r: (u32, GoMap<u32, Slice<u8>>, Option<GoErr>))
    requires cfg_ok(sv.client.config), sv.req.is_some(), res.is_some(), sv.labelState.Owner.is_some(), sv.labelState.Owner.unwrap().VerAtStarting >= -1, sv.labelState.Owner.unwrap().VerAtStarting + sv.labelState.Owner.unwrap().UpcomingVers@.len() < 0x1_0000_0000,
        values@.len() < 0x1_0000_0000
    ensures r.2.is_none() ==> {
        &&& r.0 == next_ver(sv.labelState.Owner.unwrap()) && values@.len() > 0 && res.unwrap().Info@.len() == values@.len()
        &&& forall|i: int| 0 <= i < values@.len() ==> #[trigger] value_kept(sv.client.config, sv.req.unwrap().Label@, r.0, values@, res.unwrap().Info@, r.1@, i)
        &&& forall|v: u32| #[trigger] r.1@.dom().contains(v) ==> exists|i: int| 0 <= i < values@.len() && nth_ver(r.0, i) == v
    }
//@loop 1
    invariant SEQ == values, IDX <= SEQ@.len(), values@.len() < 0x1_0000_0000, res.is_some(), res.unwrap().Info@.len() == values@.len(), !commitments.nil@, cfg_ok(sv.client.config), sv.req.is_some(),
        forall|i: int| 0 <= i < IDX ==> #[trigger] value_kept(sv.client.config, sv.req.unwrap().Label@, startVer, values@, res.unwrap().Info@, commitments@, i),
        forall|v: u32| #[trigger] commitments@.dom().contains(v) ==> exists|i: int| 0 <= i < IDX && nth_ver(startVer, i) == v,
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost c0 = commitments@;
//@hint loop 1 bottom
    proof { let kk = IDX1 - 1; assert(ver == nth_ver(startVer, kk));
        assert forall|i: int| 0 <= i < IDX1 implies #[trigger] value_kept(sv.client.config, sv.req.unwrap().Label@, startVer, values@, res.unwrap().Info@, commitments@, i) by {
            if i < kk { assert(value_kept(sv.client.config, sv.req.unwrap().Label@, startVer, values@, res.unwrap().Info@, c0, i)); assert(nth_ver(startVer, i) != ver); } }
        assert forall|v: u32| #[trigger] commitments@.dom().contains(v) implies exists|i: int| 0 <= i < IDX1 && nth_ver(startVer, i) == v by { if v == ver { assert(nth_ver(startVer, kk) == v); } else { let i = choose|i: int| 0 <= i < kk && nth_ver(startVer, i) == v; assert(0 <= i < IDX1 && nth_ver(startVer, i) == v); } } }
//@end
// ---- an update's answer, from the response to the retained state
pub open spec fn fresh(c: st_PublicConfig, dp: al_DataProvider, n: int) -> bool { exists|now: int| clock(now) && #[trigger] in_window(c, dp.timestamps@[(n - 1) as u64] as int, now) }
pub open spec fn size_of(s: Option<st_ClientState>) -> int { match s { None => 0, Some(x) => x.TreeHead.TreeSize as int } }
// what is kept of a label is about the tree the client knows
pub open spec fn label_good(s: st_ClientLabelState, n: int) -> bool {
    (forall|i: int| 0 <= i < s.Contact@.len() ==> (#[trigger] s.Contact@[i]).Position < n)
        && (s.Owner.is_some() ==> sorted_u64(s.Owner.unwrap().UpcomingVers@) && s.Owner.unwrap().VerAtStarting >= -1 && s.Owner.unwrap().VerAtStarting + s.Owner.unwrap().UpcomingVers@.len() < 0xffff_ffff)
}
pub open spec fn owner_of(s: st_LabelOwnerState) -> al_OwnerState { al_OwnerState { Starting: s.Starting, VerAtStarting: s.VerAtStarting, UpcomingVers: s.UpcomingVers } }
pub open spec fn the_values(req: st_UpdateRequest, res: st_UpdateResponse) -> Slice<st_LabelValue> { if res.Values@.len() == 0 { req.Values } else { res.Values } }
// the values' commitments, and no others, are those of the new versions
pub open spec fn values_kept(c: st_PublicConfig, req: st_UpdateRequest, res: st_UpdateResponse, start: u32, coms: Map<u32, Slice<u8>>) -> bool {
    let vals = the_values(req, res)@;
    &&& vals.len() > 0 && res.Info@.len() == vals.len()
    &&& forall|i: int| 0 <= i < vals.len() ==> #[trigger] value_kept(c, req.Label@, start, vals, res.Info@, coms, i)
    &&& forall|v: u32| #[trigger] coms.dom().contains(v) ==> exists|i: int| 0 <= i < vals.len() && nth_ver(start, i) == v
}
pub open spec fn coms_known(m: Map<u32, px_Entry>, coms: Map<u32, Slice<u8>>) -> bool { forall|v: u32| #[trigger] coms.dom().contains(v) ==> m.dom().contains(v) && !m[v].Commitment.nil@ && m[v].Commitment@ == coms[v]@ }
pub open spec fn coms_known_to(m: Map<u32, px_Entry>, coms: Map<u32, Slice<u8>>, s: Seq<u32>, k: int) -> bool { forall|i: int| 0 <= i < k ==> m.dom().contains(#[trigger] s[i]) && !m[s[i]].Commitment.nil@ && m[s[i]].Commitment@ == coms[s[i]]@ }
// the VRF outputs are the key's and nothing but the values is committed to
pub open spec fn ladder_shown(c: st_PublicConfig, req: st_UpdateRequest, res: st_UpdateResponse, start: u32, coms: Map<u32, Slice<u8>>, m: Map<u32, px_Entry>) -> bool {
    exists|vs: Seq<u32>| #[trigger] ladder_ok(c, req.Label@, res.BinaryLadder@, vs, coms, m, vs.len() as int) && res.BinaryLadder@.len() == vs.len()
        && (forall|v: u32| vs.contains(v) <==> #[trigger] needs(start, nth_ver(start, res.Info@.len() - 1), v))
        && (forall|i: int| 0 <= i < vs.len() && #[trigger] vs[i] >= start ==> res.BinaryLadder@[i].Commitment.nil@)
}
// what Monitor.Update establishes, of the state it was given
pub open spec fn upd_seen(a: al_Monitor, b: al_Monitor, pos: u64, k: i64) -> bool {
    let o = a.Owner.unwrap(); let lg = a.provider.handle.log@.len() as int; let n = a.treeSize as int; let ts = b.provider.timestamps@;
    &&& update_args(a, pos, k)
    &&& forall|f: spec_fn(int) -> int| #[trigger] agree(ts, f) ==> prior_ok(a.config, n, f, lg, b.provider, pos as int, last_upd(o) as int, gv(o))
    &&& exists|vs: Seq<u32>| #[trigger] extras(vs, gv(o) + 1, end_of(o, k)) && shown_in(lg, b.provider, pos as int, vs)
    &&& {
        ||| b.Contact == a.Contact && forall|f: spec_fn(int) -> int| #[trigger] agree(ts, f) ==> dist(a.config, n, f, pos as int)
        ||| confirmed(lg, b.provider, pos as int, end_of(o, k) as int) && ptrs_of(b.Contact) == ptrs_of(a.Contact).insert(pos, end_of(o, k)) && forall|f: spec_fn(int) -> int| #[trigger] agree(ts, f) ==> !dist(a.config, n, f, pos as int)
    }
}
// the label's state: the owner expects the new versions from pos on
pub open spec fn upd_kept(c: st_PublicConfig, n: int, s0: st_ClientLabelState, s1: st_ClientLabelState, pos: u64, k: int, dp1: al_DataProvider) -> bool {
    &&& s0.Owner.is_some() && s1.Owner.is_some() && s1.Owner.unwrap().Starting == s0.Owner.unwrap().Starting && s1.Owner.unwrap().VerAtStarting == s0.Owner.unwrap().VerAtStarting
    &&& s1.Owner.unwrap().UpcomingVers@ == s0.Owner.unwrap().UpcomingVers@ + Seq::new(k as nat, |i: int| pos)
    &&& exists|m0: al_Monitor, m1: al_Monitor| #[trigger] upd_seen(m0, m1, pos, k as i64) && m0.config == c && m0.treeSize == n && m0.Owner == Some(owner_of(s0.Owner.unwrap())) && good(m0.provider, dp1) && m1.provider == dp1
        && last_entry(s0.Contact@, s0.Contact@.len() as int, ptrs_of(m0.Contact)) && lists(s1.Contact@, ptrs_of(m1.Contact))
}
pub open spec fn update_accepted(c: st_PublicConfig, a: tr_StreamVerifier, b: tr_StreamVerifier, res: st_UpdateResponse, dp: al_DataProvider, dp1: al_DataProvider, coms: Map<u32, Slice<u8>>, m: Map<u32, px_Entry>, m2: Map<u32, px_Entry>) -> bool {
    let req = a.req.unwrap(); let new = b.state.unwrap(); let n = new.TreeHead.TreeSize as int; let start = next_ver(a.labelState.Owner.unwrap());
    &&& b.state.is_some() && accepted(c, a.state, res.FullTreeHead, dp, new) && b.client.tx.state@ == Some(enc_state(new)) && dp1.timestamps == dp.timestamps && fresh(c, dp, n)
    &&& values_kept(c, req, res, start, coms) && ladder_shown(c, req, res, start, coms, m) && knows_more(m, m2) && coms_known(m2, coms) && retained_known(a.labelState, m2, a.labelState.Versions@.len() as int)
    &&& upd_kept(c, n, a.labelState, b.labelState, res.Position, res.Info@.len() as int, dp1)
    &&& label_put(a.client.tx, b.client.tx, req.Label@, b.labelState, b.labelState.Owner.unwrap().Starting) && retained_for(b.labelState, m2)
}
pub proof fn knows_trans(a: Map<u32, px_Entry>, b: Map<u32, px_Entry>, c: Map<u32, px_Entry>) requires knows_more(a, b), knows_more(b, c) ensures knows_more(a, c)
{ assert forall|v: u32| #[trigger] a.dom().contains(v) implies c.dom().contains(v) && c[v].VrfOutput@ == a[v].VrfOutput@ && (!a[v].Commitment.nil@ ==> !c[v].Commitment.nil@ && c[v].Commitment@ == a[v].Commitment@) by { assert(b.dom().contains(v)); } }
pub proof fn retained_more(s: st_ClientLabelState, a: Map<u32, px_Entry>, b: Map<u32, px_Entry>) requires knows_more(a, b), retained_known(s, a, s.Versions@.len() as int) ensures retained_known(s, b, s.Versions@.len() as int)
{ assert forall|j: int| 0 <= j < s.Versions@.len() implies knows(b, (#[trigger] s.Versions@[j]).Version, s.Versions@[j].VrfOutput@, s.Versions@[j].Commitment) by { assert(knows(a, s.Versions@[j].Version, s.Versions@[j].VrfOutput@, s.Versions@[j].Commitment)); assert(a.dom().contains(s.Versions@[j].Version)); } }
//@go tree/transparency.StreamVerifier.Verify
pub fn tr_sv_Verify(sv_r: &mut tr_StreamVerifier, res: Option<st_UpdateResponse>) -> (r: Option<GoErr>)
    requires cfg_ok(old(sv_r).client.config), old(sv_r).req.is_some(), res.is_some(), old(sv_r).labelState.Owner.is_some(), label_good(old(sv_r).labelState, size_of(old(sv_r).state)),
        the_values(old(sv_r).req.unwrap(), res.unwrap())@.len() < 0x1_0000_0000
    ensures final(sv_r).client.config == old(sv_r).client.config, final(sv_r).req == old(sv_r).req, r.is_some() ==> final(sv_r).client.tx == old(sv_r).client.tx,
        r.is_none() ==> exists|dp: al_DataProvider, dp1: al_DataProvider, coms: Map<u32, Slice<u8>>, m: Map<u32, px_Entry>, m2: Map<u32, px_Entry>| #[trigger] update_accepted(old(sv_r).client.config, *old(sv_r), *final(sv_r), res.unwrap(), dp, dp1, coms, m, m2)
//@attr wrap
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost sv0 = sv; let ghost c0 = sv.client.config; let ghost s0 = sv.labelState; let ghost req = sv.req.unwrap(); let ghost mut dpv = Seq::<al_DataProvider>::empty(); let ghost mut dpf = dpv; let ghost mut mm = Seq::<al_Monitor>::empty(); let ghost mut m1 = mm;
    let ghost mut vs = Seq::<u32>::empty(); let ghost mut vm = Map::<u32, px_Entry>::empty(); let ghost mut vl = vm; let ghost mut v0 = Seq::<tr_verifier>::empty();
//@loop 1
    invariant SEQ == ladder, IDX <= SEQ@.len(), res.is_some(), res.unwrap().BinaryLadder@.len() == SEQ@.len(), sv == sv0,
        forall|i: int| 0 <= i < IDX && #[trigger] ladder@[i] >= startVer ==> res.unwrap().BinaryLadder@[i].Commitment.nil@,
//@hint after call tr_addLabelState 1
    proof { vl = v.handle.versions@; }
//@hint after call tr_processLadder 1
    proof { vm = v.handle.versions@; vs = ladder@; v0 = seq![v]; if RES.is_none() { assert(ladder_shown(c0, req, res.unwrap(), startVer, commitments@, vm)) by { assert(ladder_ok(c0, req.Label@, res.unwrap().BinaryLadder@, vs, commitments@, vm, vs.len() as int)); } } }
//@loop 2
    invariant MAP == commitments, SEQ@.no_duplicates(), IDX <= SEQ@.len(), forall|x: u32| #[trigger] commitments@.dom().contains(x) ==> SEQ@.contains(x), forall|i: int| 0 <= i < SEQ@.len() ==> commitments@.dom().contains(#[trigger] SEQ@[i]),
        values_kept(c0, req, res.unwrap(), startVer, commitments@), sv == sv0, v0.len() == 1,
        v.config == v0[0].config && v.state == v0[0].state && v.fth == v0[0].fth && v.provider == v0[0].provider && v.n == v0[0].n && v.nP == v0[0].nP && v.m == v0[0].m && v.handle.cs == v0[0].handle.cs, !v.handle.versions.nil@,
        knows_more(vm, v.handle.versions@), coms_known_to(v.handle.versions@, commitments@, SEQ@, IDX as int),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost h0 = v.handle.versions@;
//@hint loop 2 bottom
    proof { let h1 = v.handle.versions@; assert(commitments@.dom().contains(SEQ2@[IDX2 - 1])); let _ = value_has(c0, req, res.unwrap(), startVer, commitments@, ver);
        assert(knows_more(h0, h1)); knows_trans(vm, h0, h1); }
//@hint after loop 2
    proof { assert(coms_known(v.handle.versions@, commitments@)) by { let h = v.handle.versions@; assert forall|x: u32| #[trigger] commitments@.dom().contains(x) implies h.dom().contains(x) && !h[x].Commitment.nil@ && h[x].Commitment@ == commitments@[x]@ by { let i = choose|i: int| 0 <= i < SEQ2@.len() && SEQ2@[i] == x; assert(h.dom().contains(SEQ2@[i])); } };
        knows_trans(vl, vm, v.handle.versions@); retained_more(s0, vl, v.handle.versions@); }
//@hint after call al_UpdateView 1
    proof { if RES.is_none() && v.n > 0 { assert(fresh(c0, v.provider, v.n as int)); } }
//@hint before call al_Update 1
    proof { mm = seq![monitor]; assert(fresh(c0, v.provider, v.n as int)); assert(monitor.Owner == Some(owner_of(s0.Owner.unwrap())));
        assert(forall|x: u64| #[trigger] monitor.Contact.unwrap().Ptrs@.dom().contains(x) ==> x < v.n); }
//@hint after call al_Update 1
    // the monitor's provider is the verifier's
    v.provider = monitor.provider;
    proof { if RES.is_none() { dpv = seq![v.provider]; m1 = seq![monitor]; assert(upd_seen(mm[0], monitor, res.unwrap().Position, res.unwrap().Info@.len() as i64)); assert(fresh(c0, v.provider, v.n as int)); } }
//@hint after call tr_finish 1
    proof { if RES1.is_none() { dpf = seq![v.provider]; assert(v.provider.timestamps == dpv[0].timestamps); assert(fresh(c0, dpf[0], v.n as int)); } }
//@hint after call tr_putLabelState 1
    proof { if RES.is_none() {
        assert(upd_kept(c0, v.n as int, s0, sv.labelState, res.unwrap().Position, res.unwrap().Info@.len() as int, dpv[0])) by { assert(upd_seen(mm[0], m1[0], res.unwrap().Position, res.unwrap().Info@.len() as i64)); }
        assert(update_accepted(c0, sv0, sv, res.unwrap(), dpf[0], dpv[0], commitments@, vm, v.handle.versions@)); } }
//@end
// a commitment kept is that of one of the values
pub proof fn value_has(c: st_PublicConfig, req: st_UpdateRequest, res: st_UpdateResponse, start: u32, coms: Map<u32, Slice<u8>>, v: u32) -> (r: bool) requires values_kept(c, req, res, start, coms), coms.dom().contains(v) ensures r, !coms[v].nil@
{ let i = choose|i: int| 0 <= i < the_values(req, res)@.len() && nth_ver(start, i) == v; assert(value_kept(c, req.Label@, start, the_values(req, res)@, res.Info@, coms, i)); true }
