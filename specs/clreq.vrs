//@import client.vrs
//@typemap tree/transparency.VerifyFunc[*tree/transparency/structs.SearchResponse] VSearch VSearch::nil()
//@typemap tree/transparency.VerifyFunc[*tree/transparency/structs.OwnerInitResponse] VOwnerInit VOwnerInit::nil()
//@typemap tree/transparency.VerifyFunc[tree/transparency/structs.Marshaller] VMonitor VMonitor::nil()
//@typemap tree/transparency/structs.Marshaller TBS TBS::nil()
//@nonnil tree/transparency/structs.ClientLabelState
//@emit tree/transparency/structs.ContactMonitorRequest tree/transparency/structs.OwnerMonitorRequest tree/transparency/structs.OwnerInitRequest tree/transparency/structs.SearchRequest
// ---- C16: requests. A verification function is what it was made of.
pub struct VSearch { pub state: Ghost<Option<st_ClientState>>, pub req: Ghost<Option<st_SearchRequest>> }
pub struct VOwnerInit { pub state: Ghost<Option<st_ClientState>>, pub label: Ghost<st_ClientLabelState>, pub req: Ghost<Option<st_OwnerInitRequest>> }
pub struct VMonitor { pub state: Ghost<Option<st_ClientState>>, pub label: Ghost<st_ClientLabelState>, pub contact: Ghost<Option<st_ContactMonitorRequest>>, pub owner: Ghost<Option<st_OwnerMonitorRequest>> }
impl VSearch { #[verifier::external_body] pub fn nil() -> (r: Self) { unimplemented!() } }
impl VOwnerInit { #[verifier::external_body] pub fn nil() -> (r: Self) { unimplemented!() } }
impl VMonitor { #[verifier::external_body] pub fn nil() -> (r: Self) { unimplemented!() } }
pub uninterp spec fn no_request(t: TBS) -> bool;
pub uninterp spec fn contact_request(t: TBS) -> Option<st_ContactMonitorRequest>;
pub uninterp spec fn owner_request(t: TBS) -> Option<st_OwnerMonitorRequest>;
impl TBS { #[verifier::external_body] pub fn nil() -> (r: Self) ensures no_request(r) { unimplemented!() } }
#[verifier::external_body]
pub fn TBS_of_Option_st_ContactMonitorRequest_(t: Option<st_ContactMonitorRequest>) -> (r: TBS) ensures contact_request(r) == t, t.is_some() ==> !no_request(r) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_Option_st_OwnerMonitorRequest_(t: Option<st_OwnerMonitorRequest>) -> (r: TBS) ensures owner_request(r) == t, t.is_some() ==> !no_request(r) { unimplemented!() }
//@ext tree/transparency.Client.search
pub fn tr_search(c_r: &mut tr_Client, state: Option<st_ClientState>, req: Option<st_SearchRequest>) -> (r: VSearch) ensures *final(c_r) == *old(c_r), r.state@ == state, r.req@ == req
//@end
//@ext tree/transparency.Client.ownerInit
pub fn tr_ownerInit(c_r: &mut tr_Client, state: Option<st_ClientState>, labelState: st_ClientLabelState, req: Option<st_OwnerInitRequest>) -> (r: VOwnerInit) ensures *final(c_r) == *old(c_r), r.state@ == state, r.label@ == labelState, r.req@ == req
//@end
//@ext tree/transparency.Client.contactMonitor
pub fn tr_contactMonitor(c_r: &mut tr_Client, state: Option<st_ClientState>, labelState: st_ClientLabelState, req: Option<st_ContactMonitorRequest>) -> (r: VMonitor) ensures *final(c_r) == *old(c_r), r.state@ == state, r.label@ == labelState, r.contact@ == req, r.owner@ == None::<st_OwnerMonitorRequest>
//@end
//@ext tree/transparency.Client.ownerMonitor
pub fn tr_ownerMonitor(c_r: &mut tr_Client, state: Option<st_ClientState>, labelState: st_ClientLabelState, req: Option<st_OwnerMonitorRequest>) -> (r: VMonitor) ensures *final(c_r) == *old(c_r), r.state@ == state, r.label@ == labelState, r.owner@ == req, r.contact@ == None::<st_ContactMonitorRequest>
//@end
// s is the retained state
pub open spec fn retained_is(t: Store, s: Option<st_ClientState>) -> bool { match t.state@ { None => s.is_none(), Some(b) => s.is_some() && b == enc_state(s.unwrap()) } }
// a retained state has its frontier's timestamps, in order (what finish makes)
pub open spec fn state_good(s: st_ClientState) -> bool { okn(s.TreeHead.TreeSize) && entries_mono(s.LogEntries@) && forall|x: u64| spine(x as int, s.TreeHead.TreeSize as int) ==> #[trigger] s.LogEntries@.dom().contains(x) }
pub open spec fn states_good(t: Store) -> bool { forall|s: st_ClientState| t.state@ == Some(#[trigger] enc_state(s)) ==> state_good(s) }
pub open spec fn owners_good(t: Store) -> bool { forall|l: Seq<u8>, s: st_ClientLabelState| #[trigger] stored_as(t, l, s) && s.Owner.is_some() ==> owner_fits(s.Owner.unwrap()) }
pub open spec fn greatest_of(o: st_LabelOwnerState) -> Option<u32> { if o.VerAtStarting + o.UpcomingVers@.len() >= 0 { Some((o.VerAtStarting + o.UpcomingVers@.len()) as u32) } else { None } }
//@go tree/transparency.Client.GreatestVersionSearch
pub fn tr_GreatestVersionSearch(c_r: &mut tr_Client, label: Slice<u8>) -> (r: (Option<st_SearchRequest>, VSearch, Option<GoErr>))
    ensures *final(c_r) == *old(c_r), r.2.is_none() ==> r.0.is_some() && retained_is(old(c_r).tx, r.1.state@) && r.1.req@ == r.0 && r.0.unwrap().Last == last_of(r.1.state@) && r.0.unwrap().Label == label && r.0.unwrap().Version.is_none()
//@end
//@go tree/transparency.Client.FixedVersionSearch
pub fn tr_FixedVersionSearch(c_r: &mut tr_Client, label: Slice<u8>, ver: u32) -> (r: (Option<st_SearchRequest>, VSearch, Option<GoErr>))
    ensures *final(c_r) == *old(c_r), r.2.is_none() ==> r.0.is_some() && retained_is(old(c_r).tx, r.1.state@) && r.1.req@ == r.0 && r.0.unwrap().Last == last_of(r.1.state@) && r.0.unwrap().Label == label && r.0.unwrap().Version == Some(ver)
//@end
//@go tree/transparency.Client.OwnerInit
//@attr niltest
pub fn tr_OwnerInit(c_r: &mut tr_Client, label: Slice<u8>) -> (r: (Option<st_OwnerInitRequest>, VOwnerInit, Option<GoErr>))
    requires states_good(old(c_r).tx)
    ensures *final(c_r) == *old(c_r),
        // a label that is owned already is not taken again
        r.2.is_none() ==> r.0.is_some() && retained_is(old(c_r).tx, r.1.state@) && stored_as(old(c_r).tx, label@, r.1.label@) && r.1.label@.Owner.is_none() && r.1.req@ == r.0
            && r.0.unwrap().Last == last_of(r.1.state@) && r.0.unwrap().Label == label && r.1.state@.is_some() && spine(r.0.unwrap().Start as int, r.1.state@.unwrap().TreeHead.TreeSize as int)
//@end
//@go tree/transparency.Client.Monitor
pub fn tr_Monitor(c_r: &mut tr_Client) -> (r: (TBS, VMonitor, Option<GoErr>))
    requires states_good(old(c_r).tx), owners_good(old(c_r).tx)
    ensures *final(c_r) == *old(c_r),
        // what is asked about is a label the client keeps, that is due
        r.2.is_none() ==> no_request(r.0) || {
            &&& retained_is(old(c_r).tx, r.1.state@) && r.1.state@.is_some()
            &&& exists|l: Slice<u8>| #[trigger] stored_as(old(c_r).tx, l@, r.1.label@) && old(c_r).tx.labels@.dom().contains(l@) && old(c_r).tx.labels@[l@].1 < r.1.state@.unwrap().TreeHead.TreeSize
                && if r.1.label@.Owner.is_none() {
                    r.1.label@.Contact@.len() > 0 && contact_request(r.0) == r.1.contact@ && r.1.contact@ == Some(st_ContactMonitorRequest { Last: last_of(r.1.state@), Label: l, Entries: r.1.label@.Contact })
                } else {
                    owner_request(r.0) == r.1.owner@ && r.1.owner@ == Some(st_OwnerMonitorRequest { Last: last_of(r.1.state@), Label: l, Entries: r.1.label@.Contact, Start: r.1.label@.Owner.unwrap().Starting, GreatestVersion: greatest_of(r.1.label@.Owner.unwrap()) })
                }
        }
//@hint after call tr_getStaleLabel 1
    let ghost l = RES0;
    proof { if RES2.is_none() && !l.nil@ { assert(stored_as(c.tx, l@, RES1)); } }
//@end
//@go tree/transparency.Client.Update
//@attr niltest
pub fn tr_client_Update(c_r: &mut tr_Client, label: Slice<u8>, values: Slice<Slice<u8>>) -> (r: (Option<st_UpdateRequest>, Option<tr_StreamVerifier>, Option<GoErr>))
    requires owners_good(old(c_r).tx)
    ensures *final(c_r) == *old(c_r),
        r.2.is_none() ==> r.0.is_some() && r.1.is_some() && {
            let sv = r.1.unwrap(); let q = r.0.unwrap();
            &&& sv.client == *old(c_r) && retained_is(old(c_r).tx, sv.state) && stored_as(old(c_r).tx, label@, sv.labelState) && sv.labelState.Owner.is_some() && sv.req == r.0
            &&& q.Last == last_of(sv.state) && q.Label == label && q.GreatestVersion == greatest_of(sv.labelState.Owner.unwrap()) && q.Values@.len() == values@.len() && forall|i: int| 0 <= i < values@.len() ==> (#[trigger] q.Values@[i]).Value == values@[i]
        }
//@loop 1
    invariant SEQ == values, IDX <= SEQ@.len(), labelValues@.len() == values@.len(), forall|i: int| 0 <= i < IDX ==> (#[trigger] labelValues@[i]).Value == values@[i],
    decreases SEQ@.len() - IDX
//@end
