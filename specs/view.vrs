//@use dist.vrs
// ---- C11: view updates
pub struct Time { pub ms: Ghost<int> }
impl Clone for Time { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Time {}
// clock(t): the local clock read t milliseconds during the call
pub uninterp spec fn clock(t: int) -> bool;
//@ext time.Now
pub fn time_Now() -> (r: Time) ensures clock(r.ms@), 0 <= r.ms@ <= i64::MAX
//@end
//@ext time.Time.UnixMilli
pub fn time_UnixMilli(t: Time) -> (r: i64) ensures 0 <= t.ms@ <= i64::MAX ==> r == t.ms@
//@end
pub open spec fn in_window(c: st_PublicConfig, ts: int, now: int) -> bool { ts - now <= c.Config.MaxAhead && now - ts <= c.Config.MaxBehind }
//@go tree/transparency/algorithms.UpdateView
pub fn al_UpdateView(config: st_PublicConfig, n: u64, m: Option<u64>, provider_r: &mut al_DataProvider) -> (r: Option<GoErr>)
    requires n == 0 || okw(n), wf(*old(provider_r)), !old(provider_r).handle.nil@
    ensures ext_of(*old(provider_r), *final(provider_r)), ts_only(*old(provider_r), *final(provider_r)),
        r.is_none() ==> good(*old(provider_r), *final(provider_r)) && (m.is_some() ==> m.unwrap() <= n),
        r.is_none() && n > 0 ==> has_ts(*final(provider_r), (n - 1) as u64) && exists|now: int| clock(now) && #[trigger] in_window(config, final(provider_r).timestamps@[(n - 1) as u64] as int, now),
        r.is_some() ==> fails(*old(provider_r), *final(provider_r)) || m.is_some() && m.unwrap() > n || has_ts(*final(provider_r), (n - 1) as u64) && exists|now: int| clock(now) && !#[trigger] in_window(config, final(provider_r).timestamps@[(n - 1) as u64] as int, now),
        // every frontier entry's timestamp is known, or was on the old frontier
        r.is_none() && n > 0 ==> forall|y: u64| #[trigger] spine(y as int, n as int) ==> has_ts(*final(provider_r), y) || m.is_some() && spine(y as int, m.unwrap() as int),
//@hint entry
    let ghost p0 = provider; let ghost mut p1 = provider;
    proof { good_refl(provider); if n > 0 { spine_last(n as int); } }
//@loop 1
    invariant okw(n), wf(provider), good(p0, provider), ts_only(p0, provider), provider.handle.nil == p0.handle.nil, forall|i: int| 0 <= i < IDX ==> has_ts(provider, #[trigger] SEQ@[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost q0 = provider;
//@hint after call al_GetTimestamp 1
    proof { good_trans(p0, q0, provider); assert forall|y: u64| has_ts(q0, y) implies has_ts(provider, y) by { assert(q0.timestamps@.dom().contains(y)); } }
//@hint after loop 1
    proof { p1 = provider; }
    proof { assert forall|y: u64| #[trigger] spine(y as int, n as int) implies has_ts(provider, y) || m.is_some() && spine(y as int, m.unwrap() as int) by {
        if SEQ1@.contains(y) { let i = choose|i: int| 0 <= i < SEQ1@.len() && SEQ1@[i] == y; assert(has_ts(provider, SEQ1@[i])); } } }
//@hint after call al_GetTimestamp 2
    proof { good_trans(p0, p1, provider); assert forall|y: u64| has_ts(p1, y) implies has_ts(provider, y) by { assert(p1.timestamps@.dom().contains(y)); } }
//@hint return 5
    proof { assert(!in_window(config, ts as int, now as int)); }
//@hint return 6
    proof { assert(!in_window(config, ts as int, now as int)); }
//@hint return 7
    proof { assert(in_window(config, ts as int, now as int)); }
//@end
