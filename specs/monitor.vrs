//@use search.vrs
//@nonnil tree/transparency/algorithms.Monitor
// ---- C13: monitoring
//@ext slices.Reverse[Slice<u64>]
pub fn slices_Reverse_u64(v: &mut Slice<u64>) ensures final(v)@ == old(v)@.reverse(), final(v).nil == old(v).nil
//@end
// -- the owner's state: versions of the label by position
pub open spec fn owner_ok(o: al_OwnerState) -> bool { sorted_u64(o.UpcomingVers@) && -1 <= o.VerAtStarting && o.VerAtStarting + o.UpcomingVers@.len() < 0xffff_ffff }
// how many of the upcoming versions exist at x
pub open spec fn upto(s: Seq<u64>, x: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { upto(s.drop_last(), x) + if s.last() <= x { 1int } else { 0 } } }
pub open spec fn ver_at(o: al_OwnerState, x: int) -> int { o.VerAtStarting + upto(o.UpcomingVers@, x) }
pub proof fn upto_is(s: Seq<u64>, x: int, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] <= x, forall|i: int| k <= i < s.len() ==> s[i] > x
    ensures upto(s, x) == k decreases s.len()
{ if s.len() > 0 { upto_is(s.drop_last(), x, if k == s.len() { k - 1 } else { k }); } }
pub proof fn upto_bound(s: Seq<u64>, x: int) ensures 0 <= upto(s, x) <= s.len() decreases s.len() { if s.len() > 0 { upto_bound(s.drop_last(), x); } }
pub proof fn upto_tail(s: Seq<u64>, k: int, x: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] <= x ensures upto(s.subrange(k, s.len() as int), x) == upto(s, x) - k decreases s.len()
{
    if k == s.len() { assert(s.subrange(k, s.len() as int) =~= Seq::<u64>::empty()); upto_is(s, x, k); }
    else { let t = s.subrange(k, s.len() as int); assert(t.drop_last() =~= s.drop_last().subrange(k, s.len() - 1)); assert(t.last() == s.last()); upto_tail(s.drop_last(), k, x); }
}
//@go tree/transparency/algorithms.OwnerState.SetStarting
pub fn al_SetStarting(os_r: &mut Option<al_OwnerState>, x: u64)
    requires old(os_r).is_some(), owner_ok(old(os_r).unwrap()), x < u64::MAX
    ensures final(os_r).is_some(), owner_ok(final(os_r).unwrap()), final(os_r).unwrap().Starting == x,
        // the same versions from there on
        forall|y: int| y >= x ==> #[trigger] ver_at(final(os_r).unwrap(), y) == ver_at(old(os_r).unwrap(), y),
        final(os_r).unwrap().VerAtStarting + final(os_r).unwrap().UpcomingVers@.len() == old(os_r).unwrap().VerAtStarting + old(os_r).unwrap().UpcomingVers@.len(),
//@hint return
    proof { let s = old(os_r).unwrap().UpcomingVers@;
        assert forall|y: int| y >= x implies #[trigger] ver_at(os.unwrap(), y) == ver_at(old(os_r).unwrap(), y) by { upto_tail(s, idx as int, y); } }
//@end
//@go tree/transparency/algorithms.OwnerState.GreatestVersionAt
pub fn al_GreatestVersionAt(os: Option<al_OwnerState>, x: u64) -> (r: i64)
    requires os.is_some(), owner_ok(os.unwrap()), x < u64::MAX
    ensures r == ver_at(os.unwrap(), x as int), -1 <= r < 0xffff_ffff
//@hint return
    proof { upto_is(os.unwrap().UpcomingVers@, x as int, idx as int); }
//@end
//@go tree/transparency/algorithms.OwnerState.GreatestVersion
pub fn al_GreatestVersion(os: Option<al_OwnerState>) -> (r: i64)
    requires os.is_some(), owner_ok(os.unwrap())
    ensures r == os.unwrap().VerAtStarting + os.unwrap().UpcomingVers@.len(), -1 <= r < 0xffff_ffff, forall|x: int| #[trigger] ver_at(os.unwrap(), x) <= r
//@hint return
    proof { assert forall|x: int| #[trigger] ver_at(os.unwrap(), x) <= os.unwrap().VerAtStarting + os.unwrap().UpcomingVers@.len() by { upto_bound(os.unwrap().UpcomingVers@, x); } }
//@end
//@go tree/transparency/algorithms.OwnerState.LastUpdate
pub fn al_LastUpdate(os: Option<al_OwnerState>) -> (r: u64)
    requires os.is_some()
    ensures r == (if os.unwrap().UpcomingVers@.len() > 0 { os.unwrap().UpcomingVers@.last() } else { os.unwrap().Starting })
//@end
//@go tree/transparency/algorithms.OwnerState.Clone
pub fn al_OwnerClone(os: Option<al_OwnerState>) -> (r: Option<al_OwnerState>)
    requires os.is_some() ensures r == os
//@end
// -- the monitor
pub open spec fn mon_ok(m: al_Monitor) -> bool {
    okw(m.treeSize) && wf(m.provider) && !m.provider.handle.nil@ && has_ts(m.provider, (m.treeSize - 1) as u64) && m.provider.timestamps@[(m.treeSize - 1) as u64] == m.rightmost
}
// only the provider (and what else is said) may change
pub open spec fn mon_ext(a: al_Monitor, b: al_Monitor) -> bool { a.config == b.config && a.rightmost == b.rightmost && a.treeSize == b.treeSize && ext_of(a.provider, b.provider) }
pub proof fn mon_trans(a: al_Monitor, b: al_Monitor, c: al_Monitor) ensures mon_ext(a, b) && mon_ext(b, c) ==> mon_ext(a, c), mon_ok(a) && mon_ext(a, b) ==> mon_ok(b)
{
    good_trans(a.provider, b.provider, c.provider);
    if mon_ok(a) && mon_ext(a, b) { assert(a.provider.timestamps@.dom().contains((a.treeSize - 1) as u64)); }
}
//@go tree/transparency/algorithms.NewMonitor
pub fn al_NewMonitor(config: st_PublicConfig, treeSize: u64, provider_r: &mut al_DataProvider) -> (r: (al_Monitor, Option<GoErr>))
    requires treeSize == 0 || okw(treeSize), wf(*old(provider_r)), !old(provider_r).handle.nil@
    ensures ext_of(*old(provider_r), *final(provider_r)), r.1.is_some() && treeSize > 0 ==> fails(*old(provider_r), *final(provider_r)),
        r.1.is_none() ==> good(*old(provider_r), *final(provider_r)) && mon_ok(r.0) && r.0.config == config && r.0.treeSize == treeSize && r.0.provider == *final(provider_r) && r.0.Contact.is_none() && r.0.Owner.is_none(),
//@end
// l and r are the timestamps left and right of the entries below x
pub open spec fn bnd(dp: al_DataProvider, n: int, x: int, l: u64, r: u64) -> bool {
    &&& 0 <= x < n && (l == 0 || exists|p: u64| p < nl(x) && #[trigger] has_ts(dp, p) && dp.timestamps@[p] == l)
    &&& exists|p: u64| min2(nh(x), n) <= p + 1 <= n && #[trigger] has_ts(dp, p) && dp.timestamps@[p] == r
}
pub proof fn bnd_root(m: al_Monitor) requires mon_ok(m) ensures bnd(m.provider, m.treeSize as int, root_of(m.treeSize as int), 0, m.rightmost), is_root(root_of(m.treeSize as int), m.treeSize as int)
{ root_exists(m.treeSize as int); lvl_props(root_of(m.treeSize as int)); assert(has_ts(m.provider, (m.treeSize - 1) as u64)); }
pub proof fn bnd_ext(a: al_DataProvider, b: al_DataProvider, n: int, x: int, l: u64, r: u64) requires bnd(a, n, x, l, r), ext_of(a, b) ensures bnd(b, n, x, l, r)
{
    let q = choose|p: u64| min2(nh(x), n) <= p + 1 <= n && #[trigger] has_ts(a, p) && a.timestamps@[p] == r; assert(a.timestamps@.dom().contains(q)); assert(has_ts(b, q));
    if l != 0 { let p = choose|p: u64| p < nl(x) && #[trigger] has_ts(a, p) && a.timestamps@[p] == l; assert(a.timestamps@.dom().contains(p)); assert(has_ts(b, p)); }
}
pub proof fn bnd_use(dp: al_DataProvider, n: int, x: int, l: u64, r: u64, y: u64) requires bnd(dp, n, x, l, r), wf(dp) ensures l <= r, has_ts(dp, y) && under(y as int, x) && y < n ==> l <= dp.timestamps@[y] <= r
{
    lvl_props(x);
    let q = choose|p: u64| min2(nh(x), n) <= p + 1 <= n && #[trigger] has_ts(dp, p) && dp.timestamps@[p] == r;
    if l != 0 { let p = choose|p: u64| p < nl(x) && #[trigger] has_ts(dp, p) && dp.timestamps@[p] == l; assert(dp.timestamps@[p] <= dp.timestamps@[q]); if has_ts(dp, y) && under(y as int, x) { assert(dp.timestamps@[p] <= dp.timestamps@[y]); } }
    if has_ts(dp, y) && under(y as int, x) && y < n { if y < q { assert(dp.timestamps@[y] <= dp.timestamps@[q]); } }
}
pub proof fn bnd_left(dp: al_DataProvider, n: int, x: u64, l: u64, r: u64) requires bnd(dp, n, x as int, l, r), lvl(x as int) >= 1, has_ts(dp, x) ensures bnd(dp, n, left_of(x as int), l, dp.timestamps@[x])
{ lvl_props(x as int); left_props(x as int); assert(has_ts(dp, x)); }
pub proof fn bnd_right(dp: al_DataProvider, n: int, x: u64, l: u64, r: u64) requires bnd(dp, n, x as int, l, r), lvl(x as int) >= 1, x + 1 < n, has_ts(dp, x) ensures bnd(dp, n, right_of(x as int, n), dp.timestamps@[x], r)
{ lvl_props(x as int); right_exists(x as int, n); assert(has_ts(dp, x)); }
// z is x or an ancestor of x to its right
pub open spec fn ranc_eq(z: int, x: int, n: int) -> bool { z == x || ranc(z, x, n) }
// the first distinguished entry at or above x, to its right
pub open spec fn first_dist(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, r: Option<u64>) -> bool {
    match r {
        None => forall|z: int| #[trigger] ranc_eq(z, x, n) ==> !dist(c, n, f, z),
        Some(y) => ranc_eq(y as int, x, n) && dist(c, n, f, y as int) && forall|z: int| #[trigger] ranc_eq(z, x, n) && z < y ==> !dist(c, n, f, z),
    }
}
pub proof fn ranc_under(z: int, x: int, n: int) requires 0 <= x < n, ranc_eq(z, x, n) ensures under(x, z), 0 <= z < n, nl(z) <= nl(x), nh(x) <= nh(z), lvl(x) <= lvl(z) { lvl_props(x); lvl_props(z); under_nested(x, z); }
// z, an ancestor of t like cur, is above cur or below it
pub proof fn step_left(t: int, cur: int, z: int, n: int) requires 0 <= t < n, ranc_eq(z, t, n), 0 <= cur < n, t < cur, under(t, cur), lvl(cur) >= 1 ensures under(t, left_of(cur)), under(z, cur) && z != cur ==> under(z, left_of(cur)), under(z, left_of(cur)) ==> under(z, cur)
{ lvl_props(z); lvl_props(cur); left_props(cur); rstep_props(cur); under_split(t, cur); if under(z, cur) { under_split(z, cur); if under(z, rstep_of(cur)) { under_nested(z, rstep_of(cur)); } } }
pub proof fn step_right(t: int, cur: int, z: int, n: int) requires 0 <= t < n, ranc_eq(z, t, n), 0 <= cur < n, cur < t, under(t, cur), lvl(cur) >= 1 ensures cur + 1 < n, under(t, right_of(cur, n)), z != cur, under(z, cur) ==> under(z, right_of(cur, n)), under(z, right_of(cur, n)) ==> under(z, cur)
{ lvl_props(z); lvl_props(cur); right_exists(cur, n); lvl_props(right_of(cur, n)); }
//@go tree/transparency/algorithms.Monitor.distinguishedAncestor
pub fn al_distinguishedAncestor(m_r: &mut al_Monitor, target: u64) -> (r: (Option<u64>, Option<GoErr>))
    requires mon_ok(*old(m_r)), target < old(m_r).treeSize
    ensures mon_ext(*old(m_r), *final(m_r)), ts_only(old(m_r).provider, final(m_r).provider), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner == old(m_r).Owner,
        r.1.is_some() ==> fails(old(m_r).provider, final(m_r).provider),
        r.1.is_none() ==> good(old(m_r).provider, final(m_r).provider) && (r.0.is_some() ==> ranc_eq(r.0.unwrap() as int, target as int, old(m_r).treeSize as int)),
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> first_dist(old(m_r).config, old(m_r).treeSize as int, f, target as int, r.0),
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost t = target as int;
    proof { good_refl(m.provider); bnd_root(m); }
//@hint before loop 1
    proof { lvl_props(curr as int); assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies seen_from(c, n, f, curr as int, left as int, right as int) by { agree_at(m.provider, (n - 1) as u64, f); at_root(c, n, f); }
       bnd_use(m.provider, n, curr as int, left, right, curr); }
//@loop 1
    invariant_except_break distinguished@.len() > 0 ==> !under(distinguished@.last() as int, curr as int),
        forall|z: int| #[trigger] ranc_eq(z, t, n) && !under(z, curr as int) ==> distinguished@.len() > 0 && z >= distinguished@.last(),
        bnd(m.provider, n, curr as int, left, right), left <= right,
        forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) ==> seen_from(c, n, f, curr as int, left as int, right as int),
    invariant mon_ok(m), m.config == c, m.treeSize == n, m.rightmost == m0.rightmost, m.Contact == m0.Contact, m.Owner == m0.Owner, good(m0.provider, m.provider), ts_only(m0.provider, m.provider), t == target, 0 <= t < n, under(t, curr as int), 0 <= curr < n,
        distinguished@.len() > 0 ==> ranc_eq(distinguished@.last() as int, t, n),
        forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) ==> (distinguished@.len() > 0 ==> dist(c, n, f, distinguished@.last() as int)),
    ensures forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) ==> first_dist(c, n, f, t, if distinguished@.len() > 0 { Some(distinguished@.last()) } else { None }),
    decreases lvl(curr as int)
//@attr #[verifier::allow_complex_invariants]
//@hint loop 1 top
    let ghost q0 = m; let ghost x0 = curr; let ghost l0 = left; let ghost r0 = right; let ghost d0 = distinguished@;
    proof { lvl_props(curr as int); lvl_props(t); assert(is_dist(c, left as int, right as int));
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies dist(c, n, f, curr as int) by { assert(cur_covers(curr as int, n, curr as int)); reveal_with_fuel(distd, 2); } }
//@hint after call al_GetTimestamp 1
    proof { good_trans(m0.provider, q0.provider, m.provider); mon_trans(m0, q0, m);
        if RES1.is_none() {
            bnd_ext(q0.provider, m.provider, n, x0 as int, l0, r0); bnd_use(m.provider, n, x0 as int, l0, r0, x0);
            if t < x0 { step_left(t, x0 as int, t, n); } else { step_right(t, x0 as int, t, n); }
        } }
//@hint loop 1 bottom
    proof {
        if t < x0 { bnd_left(m.provider, n, x0, l0, r0); left_props(x0 as int); } else { bnd_right(m.provider, n, x0, l0, r0); right_exists(x0 as int, n); }
        lvl_props(curr as int);
        bnd_use(m.provider, n, curr as int, left, right, curr);
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies seen_from(c, n, f, curr as int, left as int, right as int) && (distinguished@.len() > 0 ==> dist(c, n, f, distinguished@.last() as int)) by {
            agree_ext(q0.provider, m.provider, f); agree_at(m.provider, x0, f);
            if t < x0 { go_left(c, n, f, x0 as int, l0 as int, r0 as int); } else { go_right(c, n, f, x0 as int, l0 as int, r0 as int); } }
        assert forall|z: int| #[trigger] ranc_eq(z, t, n) && !under(z, curr as int) implies distinguished@.len() > 0 && z >= distinguished@.last() by {
            ranc_under(z, t, n);
            if under(z, x0 as int) && z != x0 { if t < x0 { step_left(t, x0 as int, z, n); } else { step_right(t, x0 as int, z, n); } }
            lvl_props(z); lvl_props(x0 as int);
        }
    }
//@end

// ---- Section 8.2
pub open spec fn is_mon(e: Ev, y: int, v: int) -> bool { match e { Ev::Mon(p, w, _) => p == y && w == v, _ => false } }
// entry y showed a monitoring ladder for version v
pub open spec fn monned(k: int, b: al_DataProvider, y: int, v: int) -> bool { exists|i: int| 0 <= k <= i < b.handle.log@.len() && is_mon(#[trigger] b.handle.log@[i], y, v) }
pub proof fn monned_ext(k: int, a: al_DataProvider, b: al_DataProvider) requires ext_of(a, b) ensures forall|y: int, v: int| #[trigger] monned(k, a, y, v) ==> monned(k, b, y, v)
{ assert forall|y: int, v: int| #[trigger] monned(k, a, y, v) implies monned(k, b, y, v) by { let i = choose|i: int| 0 <= k <= i < a.handle.log@.len() && is_mon(#[trigger] a.handle.log@[i], y, v); assert(b.handle.log@[i] == a.handle.log@[i]); } }
pub proof fn monned_now(k: int, a: al_DataProvider, b: al_DataProvider, y: u64, v: u32) requires asked(a, b, Ev::Mon(y, v, root_at(b, y))), a.handle.log@.len() >= k >= 0 ensures monned(k, b, y as int, v as int)
{ let i = b.handle.log@.len() - 1; assert(is_mon(b.handle.log@[i], y as int, v as int)); }
// what was monitored was shown
pub open spec fn shown(k: int, b: al_DataProvider, prev: Map<u64, u32>) -> bool { forall|y: u64| #[trigger] prev.dom().contains(y) ==> monned(k, b, y as int, prev[y] as int) }
// y is one of the entries to the right of x on its direct path, up to the
// first distinguished one; there are none if x itself is distinguished
pub open spec fn need(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, y: int) -> bool { ranc(y, x, n) && forall|z: int| #[trigger] ranc_eq(z, x, n) && z < y ==> !dist(c, n, f, z) }
// distinguished entries right of the owner's starting position are the
// business of owner monitoring
pub open spec fn exempt(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, o: Option<al_OwnerState>, y: int) -> bool { o.is_some() && y > o.unwrap().Starting && dist(c, n, f, y) }
// everything needed for x showed ver or a greater version
pub open spec fn mcovered(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, o: Option<al_OwnerState>, prev: Map<u64, u32>, x: int, ver: int) -> bool {
    forall|y: u64| #[trigger] need(c, n, f, x, y as int) && !exempt(c, n, f, o, y as int) ==> prev.dom().contains(y) && prev[y] >= ver
}
pub open spec fn closed(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, o: Option<al_OwnerState>, prev: Map<u64, u32>) -> bool {
    forall|z: u64| #[trigger] prev.dom().contains(z) ==> z < n && mcovered(c, n, f, o, prev, z as int, prev[z] as int)
}
// no entry at or above x, to its right, is distinguished
pub open spec fn open_end(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int) -> bool { forall|z: int| #[trigger] ranc_eq(z, x, n) ==> !dist(c, n, f, z) }
pub open spec fn top_of(n: int, x: int, p: int) -> bool { ranc_eq(p, x, n) && forall|z: int| #[trigger] ranc_eq(z, x, n) ==> z <= p }
pub proof fn ranc_trans(x: int, y: int, z: int, n: int) requires 0 <= x ensures ranc_eq(y, x, n) && ranc_eq(z, y, n) ==> ranc_eq(z, x, n), ranc_eq(y, x, n) && ranc_eq(z, x, n) && y <= z && 0 <= x < n ==> ranc_eq(z, y, n)
{
    if ranc_eq(y, x, n) && y != x { lvl_props(x); lvl_props(y); if ranc_eq(z, y, n) && z != y { lvl_props(z); under_nested(y, z); } 
        if ranc_eq(z, x, n) && y < z && 0 <= x < n { lvl_props(z); laminar(y, z); under_nested(x, y); } }
}
pub open spec fn extends32(a: Map<u64, u32>, b: Map<u64, u32>) -> bool { forall|y: u64| #[trigger] a.dom().contains(y) ==> b.dom().contains(y) && b[y] == a[y] }
// the entries to inspect are those of the path up to stop, or before it
pub open spec fn insp(path: Seq<u64>, inspect: Seq<u64>, stop: Option<u64>, skip: bool) -> bool {
    match stop { None => inspect == path, Some(s) => exists|k: int| 0 <= k < path.len() && #[trigger] path[k] == s && inspect == path.subrange(0, if skip { k } else { k + 1 }) }
}
// among the inspected entries up to the i'th, those and only those are new
pub open spec fn news(prev0: Map<u64, u32>, prev1: Map<u64, u32>, inspect: Seq<u64>, i: int, ver: u32) -> bool {
    &&& forall|j: int| 0 <= j < i ==> !prev0.dom().contains(#[trigger] inspect[j]) && prev1.dom().contains(inspect[j]) && prev1[inspect[j]] == ver
    &&& forall|y: u64| #[trigger] prev1.dom().contains(y) ==> (prev0.dom().contains(y) && prev1[y] == prev0[y]) || exists|j: int| 0 <= j < i && #[trigger] inspect[j] == y
    &&& extends32(prev0, prev1)
}
pub proof fn cm_done(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, o: Option<al_OwnerState>, prev0: Map<u64, u32>, prev1: Map<u64, u32>, x: u64, ver: u32, path: Seq<u64>, inspect: Seq<u64>, stop: Option<u64>, i: int)
    requires 0 <= x < n, first_dist(c, n, f, x as int, stop), stop != Some(x), increasing(path), forall|j: int| 0 <= j < path.len() ==> ranc(#[trigger] path[j] as int, x as int, n), forall|z: u64| #[trigger] ranc(z as int, x as int, n) ==> path.contains(z),
        insp(path, inspect, stop, o.is_some() && x >= o.unwrap().Starting), 0 <= i <= inspect.len(), news(prev0, prev1, inspect, i, ver), closed(c, n, f, o, prev0),
        i < inspect.len() ==> prev0.dom().contains(inspect[i]) && prev0[inspect[i]] > ver,
    ensures mcovered(c, n, f, o, prev1, x as int, ver as int), closed(c, n, f, o, prev1)
{
    let k = match stop { None => path.len() as int, Some(s) => choose|k: int| 0 <= k < path.len() && #[trigger] path[k] == s && inspect == path.subrange(0, if o.is_some() && x >= o.unwrap().Starting { k } else { k + 1 }) };
    assert forall|j: int| 0 <= j < inspect.len() implies #[trigger] inspect[j] == path[j] && ranc(inspect[j] as int, x as int, n) && (stop.is_some() ==> inspect[j] <= stop.unwrap()) by {}
    assert forall|y: u64| #[trigger] need(c, n, f, x as int, y as int) && !exempt(c, n, f, o, y as int) implies prev1.dom().contains(y) && prev1[y] >= ver by {
        assert(ranc(y as int, x as int, n)); assert(path.contains(y));
        let j = choose|j: int| 0 <= j < path.len() && path[j] == y;
        if stop.is_some() { assert(ranc_eq(stop.unwrap() as int, x as int, n)); if j > k { assert(path[k] < path[j]); assert(false); } }
        assert(j < inspect.len());
        assert(inspect[j] == y);
        if j > i || j == i && i < inspect.len() {
            let z = inspect[i]; assert(z <= y); ranc_trans(x as int, z as int, y as int, n);
            assert(prev1.dom().contains(z) && prev1[z] == prev0[z]);
            if z != y {
                assert forall|w: int| #[trigger] ranc_eq(w, z as int, n) && w < y implies !dist(c, n, f, w) by { ranc_trans(x as int, z as int, w, n); }
                assert(need(c, n, f, z as int, y as int));
                assert(prev0.dom().contains(y) && prev0[y] >= prev0[z]);
                assert(prev1[y] == prev0[y]);
            }
        }
    }
    assert forall|z: u64| #[trigger] prev1.dom().contains(z) implies z < n && mcovered(c, n, f, o, prev1, z as int, prev1[z] as int) by {
        if prev0.dom().contains(z) && prev1[z] == prev0[z] {
            assert forall|y: u64| #[trigger] need(c, n, f, z as int, y as int) && !exempt(c, n, f, o, y as int) implies prev1.dom().contains(y) && prev1[y] >= prev1[z] by { assert(prev0.dom().contains(y)); }
        } else {
            let j = choose|j: int| 0 <= j < i && #[trigger] inspect[j] == z;
            assert(inspect[j] == z); assert(prev1[z] == ver); assert(ranc(z as int, x as int, n));
            assert forall|y: u64| #[trigger] need(c, n, f, z as int, y as int) && !exempt(c, n, f, o, y as int) implies prev1.dom().contains(y) && prev1[y] >= prev1[z] by {
                ranc_trans(x as int, z as int, y as int, n);
                assert(ranc_eq(y as int, z as int, n));
                assert forall|w: int| #[trigger] ranc_eq(w, x as int, n) && w < y implies !dist(c, n, f, w) by { if w >= z { ranc_trans(x as int, z as int, w, n); } else if stop.is_some() { assert(inspect[j] <= stop.unwrap()); } }
                assert(need(c, n, f, x as int, y as int));
            }
        }
    }
}
pub proof fn cm_open(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, prev0: Map<u64, u32>, prev1: Map<u64, u32>, x: u64, ver: u32, path: Seq<u64>, inspect: Seq<u64>, stop: Option<u64>, skip: bool, i: int, z: u64)
    requires 0 <= x < n, first_dist(c, n, f, x as int, stop), increasing(path), forall|j: int| 0 <= j < path.len() ==> ranc(#[trigger] path[j] as int, x as int, n),
        insp(path, inspect, stop, skip), 0 <= i <= inspect.len(), news(prev0, prev1, inspect, i, ver), prev1.dom().contains(z), !prev0.dom().contains(z), open_end(c, n, f, z as int)
    ensures open_end(c, n, f, x as int)
{
    let k = match stop { None => path.len() as int, Some(s) => choose|k: int| 0 <= k < path.len() && #[trigger] path[k] == s && inspect == path.subrange(0, if skip { k } else { k + 1 }) };
    let j = choose|j: int| 0 <= j < i && #[trigger] inspect[j] == z; assert(inspect[j] == path[j]);
    assert(ranc(path[j] as int, x as int, n));
    if stop.is_some() { let s = stop.unwrap() as int; assert(path[j] <= path[k]); ranc_trans(x as int, z as int, s, n); assert(ranc_eq(s, z as int, n)); assert(dist(c, n, f, s)); }
}
//@go tree/transparency/algorithms.Monitor.contactMonitor
pub fn al_contactMonitor(m_r: &mut al_Monitor, x: u64, ver: u32, previous_r: &mut GoMap<u64, u32>) -> (r: (Option<u64>, Option<GoErr>))
    requires mon_ok(*old(m_r)), x < old(m_r).treeSize, !old(previous_r).nil@
    ensures mon_ext(*old(m_r), *final(m_r)), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner == old(m_r).Owner, !final(previous_r).nil@, extends32(old(previous_r)@, final(previous_r)@),
        forall|k: int| 0 <= k <= old(m_r).provider.handle.log@.len() && #[trigger] shown(k, old(m_r).provider, old(previous_r)@) ==> shown(k, final(m_r).provider, final(previous_r)@),
        r.1.is_none() ==> good(old(m_r).provider, final(m_r).provider),
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) && closed(old(m_r).config, old(m_r).treeSize as int, f, old(m_r).Owner, old(previous_r)@) ==>
            mcovered(old(m_r).config, old(m_r).treeSize as int, f, old(m_r).Owner, final(previous_r)@, x as int, ver as int) && closed(old(m_r).config, old(m_r).treeSize as int, f, old(m_r).Owner, final(previous_r)@),
        // the position to go on from
        r.1.is_none() ==> (match r.0 {
            Some(p) => top_of(old(m_r).treeSize as int, x as int, p as int) && (p == x || final(previous_r)@.dom().contains(p) && final(previous_r)@[p] == ver),
            None => (forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> !open_end(old(m_r).config, old(m_r).treeSize as int, f, x as int))
                || exists|z: u64| ranc(z as int, x as int, old(m_r).treeSize as int) && #[trigger] old(previous_r)@.dom().contains(z) && old(previous_r)@[z] > ver,
        }),
        r.1.is_none() ==> forall|z: u64| #[trigger] final(previous_r)@.dom().contains(z) && !old(previous_r)@.dom().contains(z) ==> ranc(z as int, x as int, old(m_r).treeSize as int) && final(previous_r)@[z] == ver,
        r.1.is_none() ==> forall|f: spec_fn(int) -> int, z: u64| #[trigger] agree(final(m_r).provider.timestamps@, f) && #[trigger] final(previous_r)@.dom().contains(z) && !old(previous_r)@.dom().contains(z) && open_end(old(m_r).config, old(m_r).treeSize as int, f, z as int) ==> open_end(old(m_r).config, old(m_r).treeSize as int, f, x as int),
        // only versions that do not ascend are refused
        r.1.is_some() ==> fails(old(m_r).provider, final(m_r).provider) || exists|z: u64| ranc(z as int, x as int, old(m_r).treeSize as int) && #[trigger] old(previous_r)@.dom().contains(z) && old(previous_r)@[z] <= ver,
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost o = m.Owner; let ghost prev0 = previous@; let ghost mut path = Seq::<u64>::empty(); let ghost skip = o.is_some() && x >= o.unwrap().Starting;
    proof { good_refl(m.provider); }
//@hint after call al_distinguishedAncestor 1
    let ghost m1 = m;
    proof { assert forall|k: int| 0 <= k <= m0.provider.handle.log@.len() && #[trigger] shown(k, m0.provider, prev0) implies shown(k, m.provider, prev0) by { monned_ext(k, m0.provider, m.provider); } }
//@hint return 2
    proof { mon_trans(m0, m1, m); assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies dist(c, n, f, x as int) by { assert(first_dist(c, n, f, x as int, stop)); }
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies mcovered(c, n, f, o, prev0, x as int, ver as int) && !open_end(c, n, f, x as int) by { assert(dist(c, n, f, x as int)); assert(ranc_eq(x as int, x as int, n)); } }
//@hint before loop 1
    proof { path = SEQ1@; assert(path.subrange(0, path.len() as int) =~= path); if stop.is_some() { assert(path.contains(stop.unwrap())); } }
//@loop 1
    invariant_except_break inspect@ == SEQ@.subrange(0, IDX as int), forall|j: int| 0 <= j < IDX ==> Some(#[trigger] SEQ@[j]) != stop,
    invariant path == SEQ@, stop.is_some() ==> SEQ@.contains(stop.unwrap()), m == m1, m.Owner == o, skip == (o.is_some() && x >= o.unwrap().Starting),
    ensures insp(path, inspect@, stop, skip)
    decreases SEQ@.len() - IDX
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::spinoff_prover]
//@hint loop 1 top
    let ghost i0 = inspect@; let ghost k = IDX1 as int - 1;
    proof { assert(i0.push(parent) =~= path.subrange(0, k + 1)); assert(i0.push(parent).subrange(0, k) =~= path.subrange(0, k));
        if stop == Some(parent) { assert(path[k] == stop.unwrap()); assert(insp(path, if skip { i0 } else { i0.push(parent) }, stop, skip)); } }
//@hint after loop 1
    proof { assert(insp(path, inspect@, stop, skip)); }
//@hint before loop 2
    proof { if stop.is_some() { let k = choose|k: int| 0 <= k < path.len() && #[trigger] path[k] == stop.unwrap() && inspect@ == path.subrange(0, if skip { k } else { k + 1 }); }
        assert forall|j: int| 0 <= j < inspect@.len() implies #[trigger] inspect@[j] == path[j] by {}
        mon_trans(m0, m1, m); }
//@loop 2
    invariant SEQ == inspect, n == m.treeSize, !previous.nil@, insp(path, inspect@, stop, skip), skip == (o.is_some() && x >= o.unwrap().Starting), stop != Some(x), mon_ok(m), mon_ext(m1, m), mon_ext(m0, m), good(m0.provider, m.provider), good(m1.provider, m.provider), m.Owner == o, m.Contact == m0.Contact, news(prev0, previous@, inspect@, IDX as int, ver), increasing(path), 0 <= x < n,
        forall|j: int| 0 <= j < path.len() ==> ranc(#[trigger] path[j] as int, x as int, n), forall|j: int| 0 <= j < inspect@.len() ==> #[trigger] inspect@[j] == path[j], inspect@.len() <= path.len(),
        forall|k: int| 0 <= k <= m0.provider.handle.log@.len() && #[trigger] shown(k, m0.provider, prev0) ==> shown(k, m.provider, previous@),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost q0 = m; let ghost p0 = previous@; let ghost i = IDX2 - 1;
    proof { assert(ranc(path[i] as int, x as int, n)); assert(y == path[i]);
        if previous@.dom().contains(y) && !(prev0.dom().contains(y) && previous@[y] == prev0[y]) { let j = choose|j: int| 0 <= j < i && #[trigger] inspect@[j] == y; assert(path[j] < path[i]); assert(false); } }
//@hint return 4
    proof {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) && closed(c, n, f, o, prev0) implies mcovered(c, n, f, o, previous@, x as int, ver as int) && closed(c, n, f, o, previous@) by {
            agree_ext(m1.provider, m.provider, f); assert(first_dist(c, n, f, x as int, stop));
            cm_done(c, n, f, o, prev0, previous@, x, ver, path, inspect@, stop, i); }
        assert forall|f: spec_fn(int) -> int, z: u64| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] previous@.dom().contains(z) && !prev0.dom().contains(z) && open_end(c, n, f, z as int) implies open_end(c, n, f, x as int) by { agree_ext(m1.provider, m.provider, f); cm_open(c, n, f, prev0, previous@, x, ver, path, inspect@, stop, skip, i, z); } }
//@hint after call al_GetMonitoringBinaryLadder 1
    proof { good_trans(m0.provider, q0.provider, m.provider); good_trans(m1.provider, q0.provider, m.provider); mon_trans(m0, q0, m); mon_trans(m1, q0, m); }
//@hint return 5
    proof { assert forall|k: int| 0 <= k <= m0.provider.handle.log@.len() && #[trigger] shown(k, m0.provider, prev0) implies shown(k, m.provider, previous@) by { monned_ext(k, q0.provider, m.provider); } }
//@hint loop 2 bottom
    proof {
        assert forall|k: int| 0 <= k <= m0.provider.handle.log@.len() && #[trigger] shown(k, m0.provider, prev0) implies shown(k, m.provider, previous@) by {
            assert(shown(k, q0.provider, p0)); monned_ext(k, q0.provider, m.provider); monned_now(k, q0.provider, m.provider, y, ver);
            assert forall|z: u64| #[trigger] previous@.dom().contains(z) implies monned(k, m.provider, z as int, previous@[z] as int) by { if z != y { assert(p0.dom().contains(z)); } } } }
//@hint after loop 2
    proof {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies first_dist(c, n, f, x as int, stop) && (closed(c, n, f, o, prev0) ==> mcovered(c, n, f, o, previous@, x as int, ver as int) && closed(c, n, f, o, previous@)) by {
            agree_ext(m1.provider, m.provider, f); assert(first_dist(c, n, f, x as int, stop));
            if closed(c, n, f, o, prev0) { cm_done(c, n, f, o, prev0, previous@, x, ver, path, inspect@, stop, inspect@.len() as int); } }
        assert forall|f: spec_fn(int) -> int, z: u64| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] previous@.dom().contains(z) && !prev0.dom().contains(z) && open_end(c, n, f, z as int) implies open_end(c, n, f, x as int) by { assert(first_dist(c, n, f, x as int, stop)); cm_open(c, n, f, prev0, previous@, x, ver, path, inspect@, stop, skip, inspect@.len() as int, z); }
        if stop.is_some() { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies !open_end(c, n, f, x as int) by { assert(ranc_eq(stop.unwrap() as int, x as int, n)); } }
        else { assert forall|z: int| #[trigger] ranc_eq(z, x as int, n) implies z <= (if inspect@.len() > 0 { inspect@.last() } else { x }) by {
                if z != x { let zz = z as u64; assert(ranc(zz as int, x as int, n)); assert(path.contains(zz)); let j = choose|j: int| 0 <= j < path.len() && path[j] == zz; assert(path[j] <= path.last()); } }
            if inspect@.len() > 0 { assert(ranc(path.last() as int, x as int, n)); assert(inspect@[inspect@.len() - 1] == path[path.len() - 1]); } } }
//@end
// x showed version ver or a greater one
pub open spec fn watched(k: int, b: al_DataProvider, y: int, ver: int) -> bool { exists|v: int| v >= ver && #[trigger] monned(k, b, y, v) }
// ver is monitored from the last entry to the right of x
pub open spec fn has_top(n: int, ptrs: Map<u64, u32>, x: int, ver: int) -> bool { exists|p: u64| #[trigger] ptrs.dom().contains(p) && top_of(n, x, p as int) && ptrs[p] >= ver }
pub open spec fn ptrs_of(s: Option<al_ContactState>) -> Map<u64, u32> { match s { Some(c) => c.Ptrs@, None => Map::<u64, u32>::empty() } }
pub open spec fn contact_ok(m: al_Monitor) -> bool { m.Contact.is_some() ==> !m.Contact.unwrap().Ptrs.nil@ && forall|x: u64| #[trigger] m.Contact.unwrap().Ptrs@.dom().contains(x) ==> x < m.treeSize }
// p goes on from an entry of the old map, for the version it was monitored for
pub open spec fn goes_on(n: int, k: int, b: al_DataProvider, old: Map<u64, u32>, p: u64, ver: u32) -> bool {
    exists|x: u64| #[trigger] old.dom().contains(x) && old[x] == ver && top_of(n, x as int, p as int) && (p == x || monned(k, b, p as int, ver as int))
}
pub open spec fn descending(old: Map<u64, u32>) -> bool { exists|x: u64, y: u64| #[trigger] old.dom().contains(x) && #[trigger] old.dom().contains(y) && x < y && old[x] >= old[y] }
pub open spec fn from_right(old: Map<u64, u32>, keys: Seq<u64>, i: int, prev: Map<u64, u32>) -> bool {
    forall|z: u64| #[trigger] prev.dom().contains(z) ==> exists|j: int| 0 <= j < i && old[#[trigger] keys[j]] == prev[z]
}
pub open spec fn topped(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, prev: Map<u64, u32>, ptrs: Map<u64, u32>) -> bool {
    forall|z: u64| #[trigger] prev.dom().contains(z) && open_end(c, n, f, z as int) ==> has_top(n, ptrs, z as int, prev[z] as int)
}
pub open spec fn topped_keys(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, old: Map<u64, u32>, keys: Seq<u64>, i: int, ptrs: Map<u64, u32>) -> bool {
    forall|j: int| 0 <= j < i && open_end(c, n, f, #[trigger] keys[j] as int) ==> has_top(n, ptrs, keys[j] as int, old[keys[j]] as int)
}
pub open spec fn covered_keys(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, o: Option<al_OwnerState>, prev: Map<u64, u32>, old: Map<u64, u32>, keys: Seq<u64>, i: int) -> bool {
    forall|j: int| 0 <= j < i ==> mcovered(c, n, f, o, prev, #[trigger] keys[j] as int, old[keys[j]] as int)
}
pub proof fn top_move(n: int, x: int, z: int, p: int) requires 0 <= x < n, ranc_eq(z, x, n) ensures top_of(n, x, p) <==> top_of(n, z, p), top_of(n, x, p) ==> 0 <= p < n
{
    if top_of(n, x, p) { ranc_trans(x, z, p, n); assert forall|w: int| #[trigger] ranc_eq(w, z, n) implies w <= p by { ranc_trans(x, z, w, n); } }
    if top_of(n, z, p) { ranc_trans(x, z, p, n); assert forall|w: int| #[trigger] ranc_eq(w, x, n) implies w <= p by { if w >= z { ranc_trans(x, z, w, n); } else { assert(ranc_eq(z, z, n)); } } }
}
// ptrs1 is ptrs0 with p's version at least ver
pub open spec fn raised(ptrs0: Map<u64, u32>, ptrs1: Map<u64, u32>, upd: Option<u64>, ver: u32) -> bool {
    match upd { None => ptrs1 == ptrs0, Some(p) => ptrs1 == (if ptrs0.dom().contains(p) && ptrs0[p] >= ver { ptrs0 } else { ptrs0.insert(p, ver) }) }
}
pub proof fn cm_step(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, o: Option<al_OwnerState>, old: Map<u64, u32>, keys: Seq<u64>, i: int, prev0: Map<u64, u32>, prev1: Map<u64, u32>, ptrs0: Map<u64, u32>, ptrs1: Map<u64, u32>, upd: Option<u64>)
    requires 0 <= i < keys.len(), 0 <= keys[i] < n, closed(c, n, f, o, prev0), covered_keys(c, n, f, o, prev0, old, keys, i), topped(c, n, f, prev0, ptrs0), topped_keys(c, n, f, old, keys, i, ptrs0),
        mcovered(c, n, f, o, prev1, keys[i] as int, old[keys[i]] as int), closed(c, n, f, o, prev1), extends32(prev0, prev1), raised(ptrs0, ptrs1, upd, old[keys[i]]),
        forall|z: u64| #[trigger] prev1.dom().contains(z) && !prev0.dom().contains(z) ==> ranc(z as int, keys[i] as int, n) && prev1[z] == old[keys[i]] && (open_end(c, n, f, z as int) ==> open_end(c, n, f, keys[i] as int)),
        match upd {
            Some(p) => top_of(n, keys[i] as int, p as int),
            None => !open_end(c, n, f, keys[i] as int) || exists|z: u64| ranc(z as int, keys[i] as int, n) && #[trigger] prev0.dom().contains(z) && prev0[z] > old[keys[i]],
        }
    ensures covered_keys(c, n, f, o, prev1, old, keys, i + 1), topped(c, n, f, prev1, ptrs1), topped_keys(c, n, f, old, keys, i + 1, ptrs1)
{
    let x = keys[i] as int; let ver = old[keys[i]];
    assert forall|j: int| 0 <= j < i + 1 implies mcovered(c, n, f, o, prev1, #[trigger] keys[j] as int, old[keys[j]] as int) by {
        if j < i { assert(mcovered(c, n, f, o, prev0, keys[j] as int, old[keys[j]] as int));
            assert forall|y: u64| #[trigger] need(c, n, f, keys[j] as int, y as int) && !exempt(c, n, f, o, y as int) implies prev1.dom().contains(y) && prev1[y] >= old[keys[j]] by { assert(prev0.dom().contains(y)); } } }
    assert forall|y: int, v: int| #[trigger] has_top(n, ptrs0, y, v) implies has_top(n, ptrs1, y, v) by {
        let p = choose|p: u64| #[trigger] ptrs0.dom().contains(p) && top_of(n, y, p as int) && ptrs0[p] >= v; assert(ptrs1.dom().contains(p)); }
    if open_end(c, n, f, x) {
        match upd {
            Some(p) => { assert(ptrs1.dom().contains(p)); }
            None => {
                let z = choose|z: u64| ranc(z as int, x, n) && #[trigger] prev0.dom().contains(z) && prev0[z] > ver;
                assert forall|w: int| #[trigger] ranc_eq(w, z as int, n) implies !dist(c, n, f, w) by { ranc_trans(x, z as int, w, n); }
                assert(has_top(n, ptrs0, z as int, prev0[z] as int));
                let p = choose|p: u64| #[trigger] ptrs0.dom().contains(p) && top_of(n, z as int, p as int) && ptrs0[p] >= prev0[z];
                top_move(n, x, z as int, p as int);
            }
        }
        assert(has_top(n, ptrs1, x, ver as int));
    }
    assert forall|z: u64| #[trigger] prev1.dom().contains(z) && open_end(c, n, f, z as int) implies has_top(n, ptrs1, z as int, prev1[z] as int) by {
        if !prev0.dom().contains(z) {
            let p = choose|p: u64| #[trigger] ptrs1.dom().contains(p) && top_of(n, x, p as int) && ptrs1[p] >= ver;
            top_move(n, x, z as int, p as int);
        }
    }
}
//@go tree/transparency/algorithms.Monitor.ContactMonitor
pub fn al_ContactMonitor(m_r: &mut al_Monitor) -> (r: Option<GoErr>)
    requires mon_ok(*old(m_r)), contact_ok(*old(m_r))
    ensures mon_ext(*old(m_r), *final(m_r)), final(m_r).Owner == old(m_r).Owner, contact_ok(*final(m_r)),
        old(m_r).Contact.is_none() ==> r.is_none() && *final(m_r) == *old(m_r),
        // an error leaves what is monitored as it was
        r.is_some() ==> final(m_r).Contact == old(m_r).Contact,
        r.is_some() ==> fails(old(m_r).provider, final(m_r).provider) || descending(ptrs_of(old(m_r).Contact)),
        r.is_none() ==> good(old(m_r).provider, final(m_r).provider),
        // every entry that is needed showed the version or a greater one
        r.is_none() ==> forall|f: spec_fn(int) -> int, x: u64, y: u64| #[trigger] agree(final(m_r).provider.timestamps@, f) && #[trigger] ptrs_of(old(m_r).Contact).dom().contains(x)
            && #[trigger] need(old(m_r).config, old(m_r).treeSize as int, f, x as int, y as int) && !exempt(old(m_r).config, old(m_r).treeSize as int, f, old(m_r).Owner, y as int)
            ==> watched(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, y as int, ptrs_of(old(m_r).Contact)[x] as int),
        // what did not reach a distinguished entry goes on being monitored
        r.is_none() ==> forall|f: spec_fn(int) -> int, x: u64| #[trigger] agree(final(m_r).provider.timestamps@, f) && #[trigger] ptrs_of(old(m_r).Contact).dom().contains(x) && open_end(old(m_r).config, old(m_r).treeSize as int, f, x as int)
            ==> has_top(old(m_r).treeSize as int, ptrs_of(final(m_r).Contact), x as int, ptrs_of(old(m_r).Contact)[x] as int),
        // from entries that showed it
        r.is_none() && old(m_r).Contact.is_some() ==> forall|p: u64| #[trigger] ptrs_of(final(m_r).Contact).dom().contains(p) ==> goes_on(old(m_r).treeSize as int, old(m_r).provider.handle.log@.len() as int, final(m_r).provider, ptrs_of(old(m_r).Contact), p, ptrs_of(final(m_r).Contact)[p]),
        r.is_none() && final(m_r).Contact.is_some() ==> exists|p: u64| ptrs_of(final(m_r).Contact).dom().contains(p),
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost o = m.Owner; let ghost omap = ptrs_of(m.Contact); let ghost k0 = m.provider.handle.log@.len() as int;
    proof { good_refl(m.provider); }
//@loop 1
    invariant m == m0, MAP == m.Contact.unwrap().Ptrs, logEntries@ =~= SEQ@.subrange(0, IDX as int), SEQ@.no_duplicates(), forall|j: int| 0 <= j < SEQ@.len() ==> MAP@.dom().contains(#[trigger] SEQ@[j]), forall|x: u64| #[trigger] MAP@.dom().contains(x) ==> SEQ@.contains(x),
    decreases SEQ@.len() - IDX
//@hint after loop 1
    proof { assert(logEntries@ =~= SEQ1@); }
    let ghost ks = logEntries@;
//@hint after call slices_Sort_u64 1
    let ghost so = logEntries@;
    proof { assert forall|j: int| 0 <= j < so.len() implies omap.dom().contains(#[trigger] so[j]) by { assert(so.contains(so[j])); } }
//@hint before loop 2
    let ghost keys = SEQ2@;
    proof { assert forall|x: u64| #[trigger] omap.dom().contains(x) implies keys.contains(x) by { assert(so.contains(x)); let j = choose|j: int| 0 <= j < so.len() && so[j] == x; assert(keys[so.len() - 1 - j] == x); }
        assert forall|i: int, j: int| 0 <= i < j < keys.len() implies keys[i] > keys[j] by { assert(so[so.len() - 1 - i] != so[so.len() - 1 - j]); } }
//@loop 2
    invariant SEQ@ == keys, n == m.treeSize, c == m.config, o == m.Owner, m.Contact == m0.Contact, omap == ptrs_of(m.Contact), !previous.nil@, !ptrs.nil@, mon_ok(m), mon_ext(m0, m), good(m0.provider, m.provider), shown(k0, m.provider, previous@),
        forall|j: int| 0 <= j < keys.len() ==> omap.dom().contains(#[trigger] keys[j]) && keys[j] < n, forall|i: int, j: int| 0 <= i < j < keys.len() ==> keys[i] > keys[j],
        from_right(omap, keys, IDX as int, previous@),
        forall|p: u64| #[trigger] ptrs@.dom().contains(p) ==> p < n && goes_on(n, k0, m.provider, omap, p, ptrs@[p]),
        forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) ==> closed(c, n, f, o, previous@) && covered_keys(c, n, f, o, previous@, omap, keys, IDX as int) && topped(c, n, f, previous@, ptrs@) && topped_keys(c, n, f, omap, keys, IDX as int, ptrs@),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost q0 = m; let ghost i = IDX2 - 1; let ghost prev0 = previous@; let ghost ptrs0 = ptrs@;
    proof { assert(keys[i] == x); }
//@hint after call al_contactMonitor 1
    proof { mon_trans(m0, q0, m); good_trans(m0.provider, q0.provider, m.provider); monned_ext(k0, q0.provider, m.provider); }
//@hint return 2
    proof { if !fails(q0.provider, m.provider) { let z = choose|z: u64| ranc(z as int, x as int, n) && #[trigger] prev0.dom().contains(z) && prev0[z] <= ver; let j = choose|j: int| 0 <= j < i && omap[#[trigger] keys[j]] == prev0[z]; assert(omap.dom().contains(keys[j]) && omap.dom().contains(x)); } }
//@hint loop 2 bottom
    proof {
        assert(raised(ptrs0, ptrs@, updated, ver));
        assert forall|p: u64| #[trigger] ptrs@.dom().contains(p) implies p < n && goes_on(n, k0, m.provider, omap, p, ptrs@[p]) by {
            if ptrs0.dom().contains(p) && ptrs@[p] == ptrs0[p] { assert(goes_on(n, k0, q0.provider, omap, p, ptrs0[p])); let xx = choose|x: u64| #[trigger] omap.dom().contains(x) && omap[x] == ptrs0[p] && top_of(n, x as int, p as int) && (p == x || monned(k0, q0.provider, p as int, ptrs0[p] as int)); assert(omap.dom().contains(xx)); }
            else { assert(omap.dom().contains(x)); } }
        assert forall|z: u64| #[trigger] previous@.dom().contains(z) implies exists|j: int| 0 <= j < i + 1 && omap[#[trigger] keys[j]] == previous@[z] by {
            if prev0.dom().contains(z) { let j = choose|j: int| 0 <= j < i && omap[#[trigger] keys[j]] == prev0[z]; assert(omap[keys[j]] == previous@[z]); } else { assert(omap[keys[i]] == previous@[z]); } }
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies closed(c, n, f, o, previous@) && covered_keys(c, n, f, o, previous@, omap, keys, i + 1) && topped(c, n, f, previous@, ptrs@) && topped_keys(c, n, f, omap, keys, i + 1, ptrs@) by {
            agree_ext(q0.provider, m.provider, f);
            cm_step(c, n, f, o, omap, keys, i, prev0, previous@, ptrs0, ptrs@, updated); }
    }
//@hint after loop 2
    proof {
        assert forall|f: spec_fn(int) -> int, x: u64, y: u64| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] omap.dom().contains(x) && #[trigger] need(c, n, f, x as int, y as int) && !exempt(c, n, f, o, y as int)
            implies watched(k0, m.provider, y as int, omap[x] as int) by {
            assert(keys.contains(x)); let j = choose|j: int| 0 <= j < keys.len() && keys[j] == x; assert(mcovered(c, n, f, o, previous@, keys[j] as int, omap[keys[j]] as int)); assert(monned(k0, m.provider, y as int, previous@[y] as int)); }
        assert forall|f: spec_fn(int) -> int, x: u64| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] omap.dom().contains(x) && open_end(c, n, f, x as int) implies has_top(n, ptrs@, x as int, omap[x] as int) by {
            assert(keys.contains(x)); let j = choose|j: int| 0 <= j < keys.len() && keys[j] == x; assert(open_end(c, n, f, keys[j] as int)); }
    }
//@hint return 3
    proof { if m.Contact.is_some() { if forall|p: u64| !ptrs@.dom().contains(p) { assert(ptrs@.dom() =~= Set::<u64>::empty()); assert(false); } let p = choose|p: u64| ptrs@.dom().contains(p); assert(ptrs_of(m.Contact).dom().contains(p)); } }
//@end

// ---- Section 8.3, second part
// entry y showed a ladder that ends in v, or shows that there is no version
pub open spec fn is_check(e: Ev, y: int, v: int) -> bool { match e { Ev::Search(p, w, omit, _, q) => p == y && w == (if v < 0 { 0 } else { v }) && !omit && q == (if v < 0 { -1int } else { 0 }), _ => false } }
pub open spec fn checked(k: int, b: al_DataProvider, y: int, v: int) -> bool { exists|i: int| 0 <= k <= i < b.handle.log@.len() && is_check(#[trigger] b.handle.log@[i], y, v) }
// a ladder for the owner's version ended in something else
pub open spec fn is_wrong(e: Ev, o: al_OwnerState) -> bool { match e { Ev::Search(p, w, omit, _, q) => p > o.Starting && !omit && w == (if ver_at(o, p as int) < 0 { 0 } else { ver_at(o, p as int) }) && q != (if ver_at(o, p as int) < 0 { -1int } else { 0 }), _ => false } }
pub open spec fn wrong(k: int, b: al_DataProvider, o: al_OwnerState) -> bool { exists|i: int| 0 <= k <= i < b.handle.log@.len() && is_wrong(#[trigger] b.handle.log@[i], o) }
pub proof fn checked_ext(k: int, a: al_DataProvider, b: al_DataProvider) requires ext_of(a, b) ensures forall|y: int, v: int| #[trigger] checked(k, a, y, v) ==> checked(k, b, y, v)
{ assert forall|y: int, v: int| #[trigger] checked(k, a, y, v) implies checked(k, b, y, v) by { let i = choose|i: int| 0 <= k <= i < a.handle.log@.len() && is_check(#[trigger] a.handle.log@[i], y, v); assert(b.handle.log@[i] == a.handle.log@[i]); } }
pub proof fn checked_weak(k: int, l: int, b: al_DataProvider) requires 0 <= k <= l ensures forall|y: int, v: int| #[trigger] checked(l, b, y, v) ==> checked(k, b, y, v)
{ assert forall|y: int, v: int| #[trigger] checked(l, b, y, v) implies checked(k, b, y, v) by { let i = choose|i: int| 0 <= l <= i < b.handle.log@.len() && is_check(#[trigger] b.handle.log@[i], y, v); assert(is_check(b.handle.log@[i], y, v)); } }
// once exhausted, a proof stays exhausted until a ladder is asked for
pub open spec fn later(a: Handle, b: Handle) -> bool { a.log@.len() <= b.log@.len() && (forall|i: int| 0 <= i < a.log@.len() ==> #[trigger] b.log@[i] == a.log@[i]) && forall|i: int| a.log@.len() <= i < b.log@.len() ==> (#[trigger] b.log@[i]) is Ts }
pub open spec fn sticky() -> bool { forall|a: Handle, b: Handle, x: int, y: int, g: int, h: int| #[trigger] stops(a, x, g) && x < y && later(a, b) ==> #[trigger] stops(b, y, h) }
// the proof was exhausted at an entry of x's subtree, and nothing was asked for since
pub open spec fn halted(n: int, x: int, b: Handle) -> bool { exists|a: Handle, y: int, g: int| #[trigger] stops(a, y, g) && cur_covers(x, n, y) && later(a, b) }
pub proof fn halted_up(n: int, x: int, z: int, a: Handle, b: Handle) requires halted(n, x, a), later(a, b), forall|y: int| #[trigger] cur_covers(x, n, y) ==> cur_covers(z, n, y) ensures halted(n, z, b)
{ let (h, y, g) = choose|h: Handle, y: int, g: int| #[trigger] stops(h, y, g) && cur_covers(x, n, y) && later(h, a); assert(later(h, b)) by { assert forall|i: int| h.log@.len() <= i < b.log@.len() implies (#[trigger] b.log@[i]) is Ts by { if i < a.log@.len() { assert(b.log@[i] == a.log@[i]); } } assert forall|i: int| 0 <= i < h.log@.len() implies #[trigger] b.log@[i] == h.log@[i] by { assert(a.log@[i] == h.log@[i]); } } assert(stops(h, y, g)); }
// below x: the distinguished entries right of s0, up to s1, showed the owner's
// version, and all of them unless the proof was exhausted
pub open spec fn walked(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, b: al_DataProvider, o: al_OwnerState, s1: int) -> bool {
    &&& forall|y: int| #[trigger] cur_covers(x, n, y) && o.Starting < y && dist(c, n, f, y) && y <= s1 ==> checked(k, b, y, ver_at(o, y))
    &&& !halted(n, x, b.handle) ==> forall|y: int| #[trigger] cur_covers(x, n, y) && o.Starting < y && dist(c, n, f, y) ==> y <= s1
}
pub proof fn wrong_weak(k: int, l: int, b: al_DataProvider, o0: al_OwnerState, o1: al_OwnerState) requires 0 <= k <= l, wrong(l, b, o1), o1.Starting >= o0.Starting, forall|y: int| y >= o1.Starting ==> #[trigger] ver_at(o1, y) == ver_at(o0, y) ensures wrong(k, b, o0)
{ let i = choose|i: int| 0 <= l <= i < b.handle.log@.len() && is_wrong(#[trigger] b.handle.log@[i], o1); if let Ev::Search(p, _, _, _, _) = b.handle.log@[i] { assert(ver_at(o1, p as int) == ver_at(o0, p as int)); } assert(is_wrong(b.handle.log@[i], o0)); }
// below x nothing is distinguished, or right of the starting position
pub proof fn walked_none(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, b: al_DataProvider, o: al_OwnerState, l: int, r: int)
    requires seen_from(c, n, f, x, l, r), !is_dist(c, l, r) || x <= o.Starting && (lvl(x) == 0 || x == n - 1), x >= 0 ensures walked(c, n, f, x, k, b, o, o.Starting as int)
{ lvl_props(x); reveal_with_fuel(distd, 2); }
pub proof fn walked_right(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, k1: int, b: al_DataProvider, o: al_OwnerState, s1: int)
    requires 0 <= x, x + 1 < n, lvl(x) >= 1, x <= o.Starting, 0 <= k <= k1, walked(c, n, f, right_of(x, n), k1, b, o, s1) ensures walked(c, n, f, x, k, b, o, s1)
{
    lvl_props(x); right_exists(x, n); lvl_props(right_of(x, n)); checked_weak(k, k1, b);
    assert forall|y: int| #[trigger] cur_covers(x, n, y) && y > x implies cur_covers(right_of(x, n), n, y) by {}
    assert forall|y: int| #[trigger] cur_covers(right_of(x, n), n, y) implies cur_covers(x, n, y) by {}
    if halted(n, right_of(x, n), b.handle) { halted_up(n, right_of(x, n), x, b.handle, b.handle); }
}
// the entries left of x were dealt with
pub open spec fn left_done(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, b: al_DataProvider, o: al_OwnerState, s: int) -> bool {
    forall|y: int| #[trigger] cur_covers(x, n, y) && o.Starting < y < x && dist(c, n, f, y) ==> (y <= s ==> checked(k, b, y, ver_at(o, y))) && (!(lvl(x) >= 1 && halted(n, left_of(x), b.handle)) ==> y <= s)
}
pub proof fn left_is(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, k1: int, b: al_DataProvider, o: al_OwnerState, s: int)
    requires 0 <= x < n, lvl(x) >= 1, 0 <= k <= k1, walked(c, n, f, left_of(x), k1, b, o, s) ensures left_done(c, n, f, x, k, b, o, s)
{
    lvl_props(x); left_props(x); checked_weak(k, k1, b);
    assert forall|y: int| #[trigger] cur_covers(x, n, y) && y < x implies cur_covers(left_of(x), n, y) by {}
}
pub proof fn stop_here(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, b: al_DataProvider, o: al_OwnerState, s: int, g: int)
    requires 0 <= x < n, left_done(c, n, f, x, k, b, o, s), s < x, stops(b.handle, x, g) ensures walked(c, n, f, x, k, b, o, s)
{ lvl_props(x); assert(cur_covers(x, n, x)); assert(later(b.handle, b.handle)); assert(halted(n, x, b.handle)); }
pub proof fn go_on(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, k: int, k1: int, bl: al_DataProvider, b: al_DataProvider, o: al_OwnerState, o1: al_OwnerState, s: int, s1: int, g: int)
    requires 0 <= x < n, sticky(), 0 <= k <= k1, left_done(c, n, f, x, k, bl, o, s), !stops(bl.handle, x, g), ext_of(bl, b), checked(k, b, x, ver_at(o, x)), s1 >= x, o1.Starting == x, forall|y: int| y >= x ==> #[trigger] ver_at(o1, y) == ver_at(o, y),
        if lvl(x) == 0 || x == n - 1 { s1 == x } else { walked(c, n, f, right_of(x, n), k1, b, o1, s1) }
    ensures walked(c, n, f, x, k, b, o, s1)
{
    lvl_props(x); checked_ext(k, bl, b); checked_weak(k, k1, b);
    if lvl(x) >= 1 { left_props(x);
        if halted(n, left_of(x), bl.handle) { let (h, y, gg) = choose|h: Handle, y: int, g: int| #[trigger] stops(h, y, g) && cur_covers(left_of(x), n, y) && later(h, bl.handle); assert(y < x); assert(stops(bl.handle, x, g)); assert(false); } }
    let has = !(lvl(x) == 0 || x == n - 1);
    if has { right_exists(x, n); lvl_props(right_of(x, n)); 
        assert forall|y: int| #[trigger] cur_covers(right_of(x, n), n, y) implies cur_covers(x, n, y) by {}
        if halted(n, right_of(x, n), b.handle) { halted_up(n, right_of(x, n), x, b.handle, b.handle); } }
    assert forall|y: int| #[trigger] cur_covers(x, n, y) && o.Starting < y && dist(c, n, f, y) implies (y <= s1 ==> checked(k, b, y, ver_at(o, y))) && (!halted(n, x, b.handle) ==> y <= s1) by {
        if y < x { assert(y <= s); assert(checked(k, bl, y, ver_at(o, y))); }
        else if y > x { assert(has); assert(cur_covers(right_of(x, n), n, y)); assert(ver_at(o1, y) == ver_at(o, y)); }
    }
}
//@go tree/transparency/algorithms.Monitor.ownerMonitor
pub fn al_ownerMonitor(m_r: &mut al_Monitor, x: u64, left: u64, right: u64) -> (r: Option<GoErr>)
    requires mon_ok(*old(m_r)), old(m_r).Owner.is_some(), owner_ok(old(m_r).Owner.unwrap()), bnd(old(m_r).provider, old(m_r).treeSize as int, x as int, left, right)
    ensures mon_ext(*old(m_r), *final(m_r)), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner.is_some(), owner_ok(final(m_r).Owner.unwrap()), final(m_r).Owner.unwrap().Starting >= old(m_r).Owner.unwrap().Starting,
        r.is_some() ==> fails(old(m_r).provider, final(m_r).provider) || wrong(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, old(m_r).Owner.unwrap()),
        r.is_none() ==> good(old(m_r).provider, final(m_r).provider),
        // the starting position moves to an entry that was checked
        r.is_none() ==> final(m_r).Owner.unwrap().Starting == old(m_r).Owner.unwrap().Starting || (final(m_r).Owner.unwrap().Starting > old(m_r).Owner.unwrap().Starting && cur_covers(x as int, old(m_r).treeSize as int, final(m_r).Owner.unwrap().Starting as int)
            && checked(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, final(m_r).Owner.unwrap().Starting as int, ver_at(old(m_r).Owner.unwrap(), final(m_r).Owner.unwrap().Starting as int))),
        forall|y: int| y >= final(m_r).Owner.unwrap().Starting ==> #[trigger] ver_at(final(m_r).Owner.unwrap(), y) == ver_at(old(m_r).Owner.unwrap(), y),
        r.is_none() ==> forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(final(m_r).provider.timestamps@, f) && seen_from(old(m_r).config, old(m_r).treeSize as int, f, x as int, left as int, right as int) ==>
            walked(old(m_r).config, old(m_r).treeSize as int, f, x as int, old(m_r).provider.handle.log@.len() as int, final(m_r).provider, old(m_r).Owner.unwrap(), final(m_r).Owner.unwrap().Starting as int),
    decreases lvl(x as int)
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost o0 = m.Owner.unwrap(); let ghost k0 = m.provider.handle.log@.len() as int; let ghost x0 = x as int; let ghost mut sl = o0.Starting as int; let ghost mut ml = m;
    proof { good_refl(m.provider); bnd_use(m.provider, n, x0, left, right, x); lvl_props(x0); }
//@hint return 1
    proof { assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies walked(c, n, f, x0, k0, m.provider, o0, o0.Starting as int) by { walked_none(c, n, f, x0, k0, m.provider, o0, left as int, right as int); } }
//@hint return 2
    proof { assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies walked(c, n, f, x0, k0, m.provider, o0, o0.Starting as int) by { walked_none(c, n, f, x0, k0, m.provider, o0, left as int, right as int); } }
//@hint after call al_GetTimestamp 1
    let ghost m1 = m;
    proof { mon_trans(m0, m0, m); if RES1.is_none() { bnd_ext(m0.provider, m.provider, n, x0, left, right); bnd_right(m.provider, n, x, left, right); right_exists(x0, n); } }
//@hint after call al_ownerMonitor 1
    proof { good_trans(m0.provider, m1.provider, m.provider); mon_trans(m0, m1, m);
        let k1 = m1.provider.handle.log@.len() as int; let o1 = m.Owner.unwrap();
        lvl_props(right_of(x0, n));
        assert forall|y: int| #[trigger] cur_covers(right_of(x0, n), n, y) implies cur_covers(x0, n, y) by {}
        checked_weak(k0, k1, m.provider);
        if wrong(k1, m.provider, o0) { wrong_weak(k0, k1, m.provider, o0, o0); }
        if RES.is_none() {
        assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies walked(c, n, f, x0, k0, m.provider, o0, o1.Starting as int) by {
            agree_ext(m1.provider, m.provider, f); agree_at(m1.provider, x, f); 
            if is_dist(c, left as int, right as int) { go_right(c, n, f, x0, left as int, right as int); walked_right(c, n, f, x0, k0, k1, m.provider, o0, o1.Starting as int); } } } }
//@hint after call al_GetTimestamp 2
    let ghost m2 = m;
    proof { mon_trans(m0, m0, m); if RES1.is_none() { bnd_ext(m0.provider, m.provider, n, x0, left, right); bnd_left(m.provider, n, x, left, right); left_props(x0); } }
//@hint after call al_ownerMonitor 2
    proof { good_trans(m0.provider, m2.provider, m.provider); mon_trans(m0, m2, m);
        let k1 = m2.provider.handle.log@.len() as int; let o1 = m.Owner.unwrap(); sl = o1.Starting as int; lvl_props(left_of(x0));
        if wrong(k1, m.provider, o0) { wrong_weak(k0, k1, m.provider, o0, o0); }
        assert forall|y: int| #[trigger] cur_covers(left_of(x0), n, y) implies cur_covers(x0, n, y) && y < x0 by {}
        checked_weak(k0, k1, m.provider);
        if RES.is_none() {
        assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies left_done(c, n, f, x0, k0, m.provider, o0, sl) by {
            agree_ext(m2.provider, m.provider, f); agree_at(m2.provider, x, f);
            go_left(c, n, f, x0, left as int, right as int); left_is(c, n, f, x0, k0, k1, m.provider, o0, sl); } } }
//@hint before call al_GreatestVersionAt 1
    proof { ml = m;
        assert(sl < x0 && sl == m.Owner.unwrap().Starting);
        assert(mon_ext(m0, m) && mon_ok(m)); assert(good(m0.provider, m.provider));
        assert(ver_at(m.Owner.unwrap(), x0) == ver_at(o0, x0));
        assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies left_done(c, n, f, x0, k0, m.provider, o0, sl) by {
            if lvl(x0) == 0 { } } }
//@hint return 7
    proof { assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies walked(c, n, f, x0, k0, m.provider, o0, sl) by { stop_here(c, n, f, x0, k0, m.provider, o0, sl, ver as int); } }
//@hint after call al_GetSearchBinaryLadder
    proof { good_trans(m0.provider, ml.provider, m.provider); mon_trans(m0, ml, m);
        if RES1.is_none() { let i = m.provider.handle.log@.len() - 1; let e = m.provider.handle.log@[i];
            if RES0 == (if ver < 0 { -1 } else { 0 }) { assert(is_check(e, x0, ver as int)); assert(checked(k0, m.provider, x0, ver as int)); } else { assert(is_wrong(e, o0)); } } }
//@hint before call al_SetStarting 1
    let ghost m3 = m;
    proof { assert(checked(k0, m3.provider, x0, ver as int)); assert(mon_ext(m0, m3) && mon_ext(ml, m3) && mon_ok(m3)); }
//@hint after call al_SetStarting 1
    let ghost o3 = m.Owner.unwrap();
//@hint return 12
    proof { lvl_props(x0);
        assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies walked(c, n, f, x0, k0, m.provider, o0, x0) by {
            agree_ext(ml.provider, m.provider, f); assert(left_done(c, n, f, x0, k0, ml.provider, o0, sl));
            go_on(c, n, f, x0, k0, k0, ml.provider, m.provider, o0, o3, sl, x0, ver as int); } }
//@hint after call al_GetTimestamp 3
    let ghost m4 = m;
    proof { good_trans(m0.provider, m3.provider, m.provider); mon_trans(m0, m3, m); mon_trans(ml, m3, m); if RES1.is_none() { bnd_ext(m0.provider, m.provider, n, x0, left, right); bnd_right(m.provider, n, x, left, right); right_exists(x0, n); } }
//@hint after call al_ownerMonitor 3
    proof { good_trans(m0.provider, m4.provider, m.provider); mon_trans(m0, m4, m); mon_trans(ml, m4, m); mon_trans(m3, m4, m);
        let k1 = m4.provider.handle.log@.len() as int; let o1 = m.Owner.unwrap();
        lvl_props(right_of(x0, n));
        assert forall|y: int| #[trigger] cur_covers(right_of(x0, n), n, y) implies cur_covers(x0, n, y) by {}
        checked_ext(k0, m3.provider, m.provider); checked_weak(k0, k1, m.provider);
        assert forall|y: int| y >= o1.Starting implies #[trigger] ver_at(o1, y) == ver_at(o0, y) by { assert(ver_at(o1, y) == ver_at(o3, y)); }
        if wrong(k1, m.provider, o3) { wrong_weak(k0, k1, m.provider, o0, o3); }
        if RES.is_none() {
        assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) && seen_from(c, n, f, x0, left as int, right as int) implies walked(c, n, f, x0, k0, m.provider, o0, o1.Starting as int) by {
            agree_ext(m4.provider, m.provider, f); agree_ext(ml.provider, m.provider, f); agree_at(m4.provider, x, f); assert(left_done(c, n, f, x0, k0, ml.provider, o0, sl));
            go_right(c, n, f, x0, left as int, right as int); go_on(c, n, f, x0, k0, k1, ml.provider, m.provider, o0, o3, sl, o1.Starting as int, ver as int); } } }
//@end
//@go tree/transparency/algorithms.Monitor.OwnerMonitor
pub fn al_OwnerMonitor(m_r: &mut al_Monitor) -> (r: Option<GoErr>)
    requires mon_ok(*old(m_r)), old(m_r).Owner.is_some() ==> owner_ok(old(m_r).Owner.unwrap())
    ensures mon_ext(*old(m_r), *final(m_r)), final(m_r).Contact == old(m_r).Contact,
        // an error leaves the owner's state as it was
        r.is_some() ==> final(m_r).Owner == old(m_r).Owner,
        r.is_some() ==> old(m_r).Owner.is_none() || fails(old(m_r).provider, final(m_r).provider) || wrong(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, old(m_r).Owner.unwrap()),
        r.is_none() ==> old(m_r).Owner.is_some() && good(old(m_r).provider, final(m_r).provider) && final(m_r).Owner.is_some() && owner_ok(final(m_r).Owner.unwrap()),
        r.is_none() ==> final(m_r).Owner.unwrap().Starting == old(m_r).Owner.unwrap().Starting || (final(m_r).Owner.unwrap().Starting > old(m_r).Owner.unwrap().Starting && final(m_r).Owner.unwrap().Starting < old(m_r).treeSize
            && checked(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, final(m_r).Owner.unwrap().Starting as int, ver_at(old(m_r).Owner.unwrap(), final(m_r).Owner.unwrap().Starting as int))),
        r.is_none() ==> forall|y: int| y >= final(m_r).Owner.unwrap().Starting ==> #[trigger] ver_at(final(m_r).Owner.unwrap(), y) == ver_at(old(m_r).Owner.unwrap(), y),
        // every distinguished entry up to the new position showed the owner's version
        r.is_none() ==> forall|f: spec_fn(int) -> int, y: int| sticky() && #[trigger] agree(final(m_r).provider.timestamps@, f) && #[trigger] dist(old(m_r).config, old(m_r).treeSize as int, f, y) && old(m_r).Owner.unwrap().Starting < y <= final(m_r).Owner.unwrap().Starting ==>
            checked(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, y, ver_at(old(m_r).Owner.unwrap(), y)),
        // and there is none right of it, unless the proof was exhausted
        r.is_none() ==> forall|f: spec_fn(int) -> int, y: int| sticky() && #[trigger] agree(final(m_r).provider.timestamps@, f) && #[trigger] dist(old(m_r).config, old(m_r).treeSize as int, f, y) && y > old(m_r).Owner.unwrap().Starting ==>
            y <= final(m_r).Owner.unwrap().Starting || halted(old(m_r).treeSize as int, root_of(old(m_r).treeSize as int), final(m_r).provider.handle),
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config;
    proof { good_refl(m.provider); bnd_root(m); }
//@hint after call al_ownerMonitor 1
    proof { if RES.is_none() {
        assert forall|f: spec_fn(int) -> int| sticky() && #[trigger] agree(m.provider.timestamps@, f) implies walked(c, n, f, root_of(n), m0.provider.handle.log@.len() as int, m.provider, m0.Owner.unwrap(), m.Owner.unwrap().Starting as int) && forall|y: int| #[trigger] dist(c, n, f, y) ==> cur_covers(root_of(n), n, y) by {
            assert(has_ts(m.provider, (n - 1) as u64)) by { assert(m0.provider.timestamps@.dom().contains((n - 1) as u64)); } agree_at(m.provider, (n - 1) as u64, f); at_root(c, n, f); } } }
//@end

// ---- Section 8.3, first part
pub open spec fn falling(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] > s[j] }
// y is starting or one of its unexpired ancestors to the left
pub open spec fn init_at(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, starting: int, y: int, rightmost: int) -> bool { 0 <= y < n && y <= starting && under(starting, y) && !is_exp(c, f(y), rightmost) }
pub open spec fn inits(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, starting: int, x: int, rightmost: int, xs: Seq<u64>) -> bool {
    &&& forall|i: int| 0 <= i < xs.len() ==> init_at(c, n, f, starting, #[trigger] xs[i] as int, rightmost) && under(xs[i] as int, x)
    &&& forall|y: u64| #[trigger] init_at(c, n, f, starting, y as int, rightmost) && under(y as int, x) ==> xs.contains(y)
}
pub proof fn inits_right(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, starting: int, x: u64, rightmost: int, xs: Seq<u64>)
    requires 0 <= x < starting < n, x + 1 < n, lvl(x as int) >= 1, inits(c, n, f, starting, right_of(x as int, n), rightmost, xs), xs.len() > 0, xs[0] == starting, falling(xs),
    ensures is_exp(c, f(x as int), rightmost) ==> inits(c, n, f, starting, x as int, rightmost, xs), !is_exp(c, f(x as int), rightmost) ==> inits(c, n, f, starting, x as int, rightmost, xs.push(x)), falling(xs.push(x)),
{
    lvl_props(x as int); left_props(x as int); right_exists(x as int, n); lvl_props(right_of(x as int, n));
    let r = right_of(x as int, n);
    assert(init_at(c, n, f, starting, xs[0] as int, rightmost) && under(xs[0] as int, r));
    assert forall|y: u64| #[trigger] init_at(c, n, f, starting, y as int, rightmost) && under(y as int, x as int) implies y == x || xs.contains(y) by {
        lvl_props(y as int);
        under_split(y as int, x as int);
        if y < x { under_nested(y as int, left_of(x as int)); } else if y > x { assert(under(y as int, r)); } }
    assert forall|i: int| 0 <= i < xs.len() implies init_at(c, n, f, starting, #[trigger] xs[i] as int, rightmost) && under(xs[i] as int, x as int) && xs[i] > x by { assert(under(xs[i] as int, r)); }
    let ys = xs.push(x);
    assert forall|y: u64| y == x || xs.contains(y) implies ys.contains(y) by { if y == x { assert(ys[xs.len() as int] == x); } else { let i = choose|i: int| 0 <= i < xs.len() && xs[i] == y; assert(ys[i] == y); } }
}
pub proof fn inits_left(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, starting: int, x: u64, rightmost: int, xs: Seq<u64>)
    requires 0 <= starting < x < n, lvl(x as int) >= 1, inits(c, n, f, starting, left_of(x as int), rightmost, xs)
    ensures inits(c, n, f, starting, x as int, rightmost, xs)
{
    lvl_props(x as int); left_props(x as int); lvl_props(left_of(x as int));
    assert forall|y: u64| #[trigger] init_at(c, n, f, starting, y as int, rightmost) && under(y as int, x as int) implies xs.contains(y) by { under_split(y as int, x as int); }
    assert forall|i: int| 0 <= i < xs.len() implies init_at(c, n, f, starting, #[trigger] xs[i] as int, rightmost) && under(xs[i] as int, x as int) by { assert(under(xs[i] as int, left_of(x as int))); }
}
pub proof fn inits_here(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: u64, rightmost: int)
    requires 0 <= x < n, !is_exp(c, f(x as int), rightmost) ensures inits(c, n, f, x as int, x as int, rightmost, seq![x])
{
    lvl_props(x as int);
    assert forall|y: u64| #[trigger] init_at(c, n, f, x as int, y as int, rightmost) && under(y as int, x as int) implies seq![x].contains(y) by { lvl_props(y as int); under_nested(x as int, y as int); under_nested(y as int, x as int); if lvl(y as int) < lvl(x as int) { pw_pos(lvl(y as int)); } laminar(x as int, y as int); assert(seq![x][0] == x); }
}
//@go tree/transparency/algorithms.Monitor.init
pub fn al_init(m_r: &mut al_Monitor, starting: u64, x: u64, left: u64, right: u64) -> (r: (Slice<u64>, Option<GoErr>))
    requires mon_ok(*old(m_r)), bnd(old(m_r).provider, old(m_r).treeSize as int, x as int, left, right)
    ensures mon_ext(*old(m_r), *final(m_r)), ts_only(old(m_r).provider, final(m_r).provider), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner == old(m_r).Owner,
        r.1.is_none() ==> good(old(m_r).provider, final(m_r).provider) && r.0@.len() > 0 && r.0@[0] == starting && falling(r.0@) && starting < old(m_r).treeSize,
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> inits(old(m_r).config, old(m_r).treeSize as int, f, starting as int, x as int, old(m_r).rightmost as int, r.0@),
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) && seen_from(old(m_r).config, old(m_r).treeSize as int, f, x as int, left as int, right as int) ==> dist(old(m_r).config, old(m_r).treeSize as int, f, starting as int),
    decreases lvl(x as int)
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost x0 = x as int; let ghost mut m1 = m;
    proof { good_refl(m.provider); bnd_use(m.provider, n, x0, left, right, x); lvl_props(x0); }
//@hint after call al_GetTimestamp 1
    proof { m1 = m; mon_trans(m0, m0, m); if RES1.is_none() { bnd_ext(m0.provider, m.provider, n, x0, left, right);
        assert(has_ts(m.provider, (n - 1) as u64)); assert(RES0 <= m.rightmost);
        if lvl(x0) >= 1 { bnd_left(m.provider, n, x, left, right); left_props(x0); if x0 + 1 < n { bnd_right(m.provider, n, x, left, right); right_exists(x0, n); } } } }
//@hint after call al_init 1
    proof { good_trans(m0.provider, m1.provider, m.provider); mon_trans(m0, m1, m);
        if RES1.is_none() {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies f(x0) == timestamp && (isExpired ==> inits(c, n, f, starting as int, x0, m0.rightmost as int, RES0@)) && (!isExpired ==> inits(c, n, f, starting as int, x0, m0.rightmost as int, RES0@.push(x)))
            && (seen_from(c, n, f, x0, left as int, right as int) ==> dist(c, n, f, starting as int)) && falling(RES0@.push(x)) by {
            agree_ext(m1.provider, m.provider, f); agree_at(m1.provider, x, f); inits_right(c, n, f, starting as int, x, m0.rightmost as int, RES0@);
            if seen_from(c, n, f, x0, left as int, right as int) { go_right(c, n, f, x0, left as int, right as int); } }
        assert(falling(RES0@.push(x))) by { let f = |z: int| if 0 <= z <= u64::MAX && m.provider.timestamps@.dom().contains(z as u64) { m.provider.timestamps@[z as u64] as int } else { 0 }; assert(agree(m.provider.timestamps@, f)); }
        } }
//@hint return 8
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies inits(c, n, f, starting as int, x0, m0.rightmost as int, ret.0@) && (seen_from(c, n, f, x0, left as int, right as int) ==> dist(c, n, f, starting as int)) by {
            agree_at(m.provider, x, f); inits_here(c, n, f, x, m0.rightmost as int); assert(ret.0@ =~= seq![x]); assert(cur_covers(x0, n, x0)); reveal_with_fuel(distd, 2); } }
//@hint after call al_init 2
    proof { good_trans(m0.provider, m1.provider, m.provider); mon_trans(m0, m1, m);
        if RES1.is_none() {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies inits(c, n, f, starting as int, x0, m0.rightmost as int, RES0@)
            && (seen_from(c, n, f, x0, left as int, right as int) ==> dist(c, n, f, starting as int)) by {
            agree_ext(m1.provider, m.provider, f); agree_at(m1.provider, x, f); inits_left(c, n, f, starting as int, x, m0.rightmost as int, RES0@);
            if seen_from(c, n, f, x0, left as int, right as int) { go_left(c, n, f, x0, left as int, right as int); } }
        } }
//@end
pub open spec fn init_done(m: al_Monitor, b: al_Monitor, starting: u64, xs: Seq<u64>) -> bool {
    &&& xs.len() > 0 && xs[0] == starting && falling(xs) && starting < m.treeSize
    // the unexpired entries on starting's direct path, up to it
    &&& forall|f: spec_fn(int) -> int| #[trigger] agree(b.provider.timestamps@, f) ==> dist(m.config, m.treeSize as int, f, starting as int)
        && (forall|y: u64| xs.contains(y) <==> #[trigger] init_at(m.config, m.treeSize as int, f, starting as int, y as int, m.rightmost as int))
}
//@go tree/transparency/algorithms.Monitor.InitEntries
pub fn al_InitEntries(m_r: &mut al_Monitor, starting: u64) -> (r: (Slice<u64>, Option<GoErr>))
    requires mon_ok(*old(m_r))
    ensures mon_ext(*old(m_r), *final(m_r)), ts_only(old(m_r).provider, final(m_r).provider), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner == old(m_r).Owner,
        r.1.is_none() ==> good(old(m_r).provider, final(m_r).provider) && init_done(*old(m_r), *final(m_r), starting, r.0@),
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config;
    proof { bnd_root(m); }
//@hint after call al_init 1
    proof { if RES1.is_none() {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies dist(c, n, f, starting as int) && forall|y: u64| RES0@.contains(y) <==> #[trigger] init_at(c, n, f, starting as int, y as int, m0.rightmost as int) by {
            assert(has_ts(m.provider, (n - 1) as u64)) by { assert(m0.provider.timestamps@.dom().contains((n - 1) as u64)); } agree_at(m.provider, (n - 1) as u64, f); at_root(c, n, f);
            assert(inits(c, n, f, starting as int, root_of(n), m0.rightmost as int, RES0@));
            assert forall|y: u64| RES0@.contains(y) implies #[trigger] init_at(c, n, f, starting as int, y as int, m0.rightmost as int) by { let i = choose|i: int| 0 <= i < RES0@.len() && RES0@[i] == y; assert(init_at(c, n, f, starting as int, RES0@[i] as int, m0.rightmost as int)); } } } }
//@end
// the i'th entry showed the i'th version, or that there was none
pub open spec fn init_ver(vers: Seq<u32>, i: int) -> int { if i < vers.len() { vers[i] as int } else { -1 } }
pub open spec fn init_checked(k: int, b: al_DataProvider, xs: Seq<u64>, vers: Seq<u32>, m: int) -> bool { forall|i: int| 0 <= i < m ==> checked(k, b, #[trigger] xs[i] as int, init_ver(vers, i)) }
//@go tree/transparency/algorithms.Monitor.OwnerInit
pub fn al_OwnerInit(m_r: &mut al_Monitor, starting: u64, vers: Slice<u32>) -> (r: (Slice<u64>, Option<GoErr>))
    requires mon_ok(*old(m_r))
    ensures mon_ext(*old(m_r), *final(m_r)), final(m_r).Contact == old(m_r).Contact,
        r.1.is_some() ==> final(m_r).Owner == old(m_r).Owner,
        r.1.is_none() ==> good(old(m_r).provider, final(m_r).provider) && init_done(*old(m_r), *final(m_r), starting, r.0@) && old(m_r).Owner.is_none(),
        r.1.is_none() ==> final(m_r).Owner.is_some() && final(m_r).Owner.unwrap().Starting == starting && final(m_r).Owner.unwrap().VerAtStarting == init_ver(vers@, 0) && final(m_r).Owner.unwrap().UpcomingVers@.len() == 0,
        r.1.is_none() ==> vers@.len() <= r.0@.len() && (forall|i: int| 0 < i < vers@.len() ==> #[trigger] vers@[i] <= vers@[i - 1]),
        r.1.is_none() ==> init_checked(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, r.0@, vers@, r.0@.len() as int),
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost m0 = m; let ghost k0 = m.provider.handle.log@.len() as int;
    proof { good_refl(m.provider); }
//@hint after call al_InitEntries 1
    let ghost m1 = m;
//@loop 1
    invariant 1 <= i, i <= vers@.len() || i == 1, m == m1, forall|j: int| 0 < j < i && j < vers@.len() ==> #[trigger] vers@[j] <= vers@[j - 1],
    decreases vers@.len() - i
//@loop 2
    invariant SEQ == xs, mon_ok(m), mon_ext(m0, m), mon_ext(m1, m), good(m0.provider, m.provider), good(m1.provider, m.provider), m.Owner == m0.Owner, m.Contact == m0.Contact, init_checked(k0, m.provider, xs@, vers@, IDX as int),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost q0 = m;
//@hint after call al_GetSearchBinaryLadder
    proof { good_trans(m0.provider, q0.provider, m.provider); good_trans(m1.provider, q0.provider, m.provider); mon_trans(m0, q0, m); mon_trans(m1, q0, m); checked_ext(k0, q0.provider, m.provider);
        if RES1.is_none() { let v = init_ver(vers@, IDX2 - 1); let j = m.provider.handle.log@.len() - 1; if RES0 == (if v < 0 { -1 } else { 0 }) { assert(is_check(m.provider.handle.log@[j], x as int, v)); assert(checked(k0, m.provider, x as int, v)); } } }
//@hint after loop 2
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies agree(m1.provider.timestamps@, f) by { agree_ext(m1.provider, m.provider, f); } }
//@end
