//@import tladder.vrs monitor.vrs
//@nonnil tree/transparency/structs.ClientLabelState tree/prefix.Entry tree/transparency/algorithms.ReceivedProofHandle
//@emit tree/transparency/structs.LabelOwnerState tree/transparency/structs.RetainedVersion tree/transparency/structs.MonitorMapEntry
//@dropfield tree/transparency/algorithms.ReceivedProofHandle.tracker tree/transparency/structs.CombinedTreeProof.PrefixProofs
// ---- C13, C16: the label state a client retains
pub open spec fn lists(s: Seq<st_MonitorMapEntry>, m: Map<u64, u32>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i].Position) && m[s[i].Position] == s[i].Version
    &&& forall|x: u64| #[trigger] m.dom().contains(x) ==> has_entry(s, x)
}
pub open spec fn has_entry(s: Seq<st_MonitorMapEntry>, x: u64) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].Position == x }
// the last entry given for a position counts
pub open spec fn last_entry(s: Seq<st_MonitorMapEntry>, k: int, m: Map<u64, u32>) -> bool {
    &&& forall|i: int| 0 <= i < k ==> m.dom().contains(#[trigger] s[i].Position)
    &&& forall|x: u64| #[trigger] m.dom().contains(x) ==> exists|i: int| 0 <= i < k && #[trigger] s[i].Position == x && s[i].Version == m[x] && forall|j: int| i < j < k ==> #[trigger] s[j].Position != x
}
//@go tree/transparency/algorithms.NewContactState
pub fn al_NewContactState(entries: Slice<st_MonitorMapEntry>) -> (r: Option<al_ContactState>)
    ensures r.is_some(), !r.unwrap().Ptrs.nil@, last_entry(entries@, entries@.len() as int, r.unwrap().Ptrs@)
//@loop 1
    invariant SEQ == entries, IDX <= SEQ@.len(), !ptrs.nil@, last_entry(entries@, IDX as int, ptrs@)
//@hint after loop 1
//@end
pub uninterp spec fn mperm(a: Seq<st_MonitorMapEntry>, b: Seq<st_MonitorMapEntry>, i: int) -> int;
// b has the elements of a in another order
pub open spec fn mpermuted(a: Seq<st_MonitorMapEntry>, b: Seq<st_MonitorMapEntry>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] mperm(a, b, i) < a.len() && b[i] == a[mperm(a, b, i)]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] mperm(a, b, i) != #[trigger] mperm(a, b, j)
    &&& forall|k: int| #![trigger a[k]] 0 <= k < a.len() ==> exists|i: int| 0 <= i < b.len() && #[trigger] mperm(a, b, i) == k && b[i] == a[k]
}
//@ext slices.SortFunc#lit
pub fn slices_SortFunc_mme(v: &mut Slice<st_MonitorMapEntry>) ensures final(v).nil == old(v).nil, mpermuted(old(v)@, final(v)@)
//@end
pub proof fn lists_perm(a: Seq<st_MonitorMapEntry>, b: Seq<st_MonitorMapEntry>, m: Map<u64, u32>) requires lists(a, m), mpermuted(a, b) ensures lists(b, m)
{
    assert forall|i: int| 0 <= i < b.len() implies m.dom().contains(#[trigger] b[i].Position) && m[b[i].Position] == b[i].Version by { let j = mperm(a, b, i); assert(m.dom().contains(a[j].Position)); }
    assert forall|x: u64| #[trigger] m.dom().contains(x) implies has_entry(b, x) by { assert(has_entry(a, x)); let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k].Position == x; let i = choose|i: int| 0 <= i < b.len() && #[trigger] mperm(a, b, i) == k && b[i] == a[k]; assert(b[i].Position == x); }
}
//@go tree/transparency/algorithms.ContactState.Struct
pub fn al_cs_Struct(cs: Option<al_ContactState>) -> (r: Slice<st_MonitorMapEntry>)
    ensures cs.is_none() ==> r@.len() == 0, cs.is_some() ==> lists(r@, cs.unwrap().Ptrs@)
//@loop 1
    invariant MAP == cs.unwrap().Ptrs, cs.is_some(), IDX <= SEQ@.len(), SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> cs.unwrap().Ptrs@.dom().contains(#[trigger] SEQ@[i]), out@.len() == IDX,
        forall|i: int| 0 <= i < IDX ==> (#[trigger] out@[i]).Position == SEQ@[i] && out@[i].Version == cs.unwrap().Ptrs@[SEQ@[i]]
    decreases SEQ@.len() - IDX
//@hint after loop 1
    proof { let m = cs.unwrap().Ptrs@; assert forall|x: u64| #[trigger] m.dom().contains(x) implies has_entry(out@, x) by { let i = choose|i: int| 0 <= i < SEQ1@.len() && SEQ1@[i] == x; assert(out@[i].Position == x); } }
//@hint before call slices_SortFunc_mme 1
    let ghost o0 = out@;
//@hint after call slices_SortFunc_mme 1
    proof { lists_perm(o0, out@, cs.unwrap().Ptrs@); }
//@end
// ---- monitoring entries on one path to the right come to the same entry
pub open spec fn same_top(n: int, p: u64, q: u64) -> bool { exists|t: int| #[trigger] top_of(n, p as int, t) && top_of(n, q as int, t) }
// something in m goes on monitoring, for version v or greater, what an entry at p monitored
pub open spec fn goes(n: int, m: Map<u64, u32>, p: u64, v: u32) -> bool { exists|q: u64| #[trigger] m.dom().contains(q) && same_top(n, p, q) && m[q] >= v }
pub open spec fn in_tree(n: int, m: Map<u64, u32>) -> bool { forall|x: u64| #[trigger] m.dom().contains(x) ==> x < n }
pub proof fn top_is(n: int, x: int) -> (t: int) requires 0 <= x < n ensures top_of(n, x, t) decreases n - x
{
    if exists|z: int| #[trigger] ranc(z, x, n) { let z = choose|z: int| #[trigger] ranc(z, x, n); let t = top_is(n, z); top_move(n, x, z, t); t }
    else { assert(ranc_eq(x, x, n)); x }
}
pub proof fn same_step(n: int, p: u64, q: u64) requires p < n, ranc_eq(q as int, p as int, n) ensures same_top(n, p, q), same_top(n, q, p)
{ let t = top_is(n, p as int); top_move(n, p as int, q as int, t); assert(top_of(n, q as int, t)); }
pub proof fn same_trans(n: int, p: u64, q: u64, r: u64) requires p < n, q < n, r < n, same_top(n, p, q), same_top(n, q, r) ensures same_top(n, p, r)
{
    let t = choose|t: int| #[trigger] top_of(n, p as int, t) && top_of(n, q as int, t); let u = choose|t: int| #[trigger] top_of(n, q as int, t) && top_of(n, r as int, t);
    assert(t == u);
}
// taking x out loses nothing: y goes on for it
pub proof fn dropped(n: int, a: Map<u64, u32>, b: Map<u64, u32>, x: u64, y: u64)
    requires in_tree(n, a), a.dom().contains(x), a.dom().contains(y), x != y, b == a.remove(x), a[y] >= a[x], ranc_eq(y as int, x as int, n) || ranc_eq(x as int, y as int, n)
    ensures in_tree(n, b), forall|p: u64, v: u32| p < n && #[trigger] goes(n, a, p, v) ==> goes(n, b, p, v)
{
    if ranc_eq(y as int, x as int, n) { same_step(n, x, y); } else { same_step(n, y, x); }
    assert forall|p: u64, v: u32| p < n && #[trigger] goes(n, a, p, v) implies goes(n, b, p, v) by {
        let q = choose|q: u64| #[trigger] a.dom().contains(q) && same_top(n, p, q) && a[q] >= v;
        if q == x { same_trans(n, p, x, y); assert(b.dom().contains(y)); } else { assert(b.dom().contains(q)); }
    }
}
pub open spec fn less(n: int, a: Map<u64, u32>, b: Map<u64, u32>) -> bool {
    &&& forall|x: u64| #[trigger] b.dom().contains(x) ==> a.dom().contains(x) && b[x] == a[x]
    &&& forall|p: u64, v: u32| p < n && #[trigger] goes(n, a, p, v) ==> goes(n, b, p, v)
}
pub proof fn less_trans(n: int, a: Map<u64, u32>, b: Map<u64, u32>, c: Map<u64, u32>) requires less(n, a, b), forall|x: u64| #[trigger] c.dom().contains(x) ==> b.dom().contains(x) && c[x] == b[x], forall|p: u64, v: u32| p < n && #[trigger] goes(n, b, p, v) ==> goes(n, c, p, v) ensures less(n, a, c) {}
// further along one path, a greater version
pub open spec fn ascends(n: int, m: Map<u64, u32>, p: u64) -> bool { forall|q: u64| m.dom().contains(p) && #[trigger] m.dom().contains(q) && ranc(q as int, p as int, n) ==> m[q] > m[p] }
//@go tree/transparency.simplifyMonitoringMap
pub fn tr_simplifyMonitoringMap(ptrs_r: &mut GoMap<u64, u32>, n: u64)
    requires okw(n), !old(ptrs_r).nil@, in_tree(n as int, old(ptrs_r)@)
    ensures final(ptrs_r).nil == old(ptrs_r).nil, in_tree(n as int, final(ptrs_r)@), less(n as int, old(ptrs_r)@, final(ptrs_r)@), forall|p: u64| #[trigger] final(ptrs_r)@.dom().contains(p) ==> ascends(n as int, final(ptrs_r)@, p)
//@hint entry
    let ghost p0 = ptrs; let ghost mut m1 = ptrs@; let ghost mut mx = ptrs@;
//@loop 1
    invariant okw(n), ptrs.nil == p0.nil, !ptrs.nil@, in_tree(n as int, ptrs@), less(n as int, p0@, ptrs@)
    decreases ptrs@.dom().len()
//@hint before loop 2
    proof { m1 = ptrs@; }
//@loop 2
    invariant okw(n), ptrs.nil == p0.nil, !ptrs.nil@, in_tree(n as int, ptrs@), less(n as int, p0@, ptrs@), ptrs@.dom().len() + (if modified { 1int } else { 0 }) <= m1.dom().len(), IDX <= SEQ@.len()
    decreases SEQ@.len() - IDX
//@hint before delete 1
    proof { mx = ptrs@; let n_ = n as int; assert(ranc(path@[0] as int, pos as int, n_)); dropped(n_, mx, mx.remove(pos), pos, path@[0]); less_trans(n_, p0@, mx, mx.remove(pos)); }
//@loop 3
    invariant okw(n), ptrs.nil == p0.nil, !ptrs.nil@, in_tree(n as int, ptrs@), less(n as int, p0@, ptrs@), IDX <= SEQ@.len(), forall|x: u64| #[trigger] ptrs@.dom().contains(x) ==> MAP@.dom().contains(x),
        forall|x: u64| #[trigger] MAP@.dom().contains(x) ==> SEQ@.contains(x), forall|j: int| 0 <= j < IDX ==> ascends(n as int, ptrs@, #[trigger] SEQ@[j])
    decreases SEQ@.len() - IDX
//@loop 4
    invariant okw(n), ptrs.nil == p0.nil, !ptrs.nil@, in_tree(n as int, ptrs@), less(n as int, p0@, ptrs@), IDX <= SEQ@.len(), ptrs@.dom().contains(pos), ptrs@[pos] == ver,
        forall|i: int| 0 <= i < SEQ@.len() ==> ranc(#[trigger] SEQ@[i] as int, pos as int, n as int), forall|z: u64| #[trigger] ranc(z as int, pos as int, n as int) ==> SEQ@.contains(z),
        forall|x: u64| #[trigger] ptrs@.dom().contains(x) ==> MAP3@.dom().contains(x), forall|j: int| 0 <= j < IDX3 - 1 ==> ascends(n as int, ptrs@, #[trigger] SEQ3@[j]),
        forall|j: int| 0 <= j < IDX && ptrs@.dom().contains(#[trigger] SEQ@[j]) ==> ptrs@[SEQ@[j]] > ver
    decreases SEQ@.len() - IDX
//@hint before delete 2
    proof { mx = ptrs@; let n_ = n as int; dropped(n_, mx, mx.remove(parent), parent, pos); less_trans(n_, p0@, mx, mx.remove(parent)); }
//@end
pub proof fn overwritten(n: int, a: Map<u64, u32>, x: u64, ver: u32)
    requires in_tree(n, a), x < n, a.dom().contains(x) ==> a[x] <= ver
    ensures in_tree(n, a.insert(x, ver)), forall|p: u64, v: u32| p < n && #[trigger] goes(n, a, p, v) ==> goes(n, a.insert(x, ver), p, v)
{
    let b = a.insert(x, ver);
    assert forall|p: u64, v: u32| p < n && #[trigger] goes(n, a, p, v) implies goes(n, b, p, v) by { let q = choose|q: u64| #[trigger] a.dom().contains(q) && same_top(n, p, q) && a[q] >= v; assert(b.dom().contains(q)); }
}
// after is monitored all that was before, and version ver from x on; each once
pub open spec fn monitors(n: int, before: Seq<st_MonitorMapEntry>, after: Seq<st_MonitorMapEntry>, x: u64, ver: u32) -> bool {
    exists|a: Map<u64, u32>, b: Map<u64, u32>| #[trigger] last_entry(before, before.len() as int, a) && #[trigger] lists(after, b) && (forall|p: u64| #[trigger] a.dom().contains(p) ==> goes(n, b, p, a[p])) && goes(n, b, x, ver)
        && (forall|p: u64| #[trigger] b.dom().contains(p) ==> ascends(n, b, p))
}
//@go tree/transparency.updateContactState
pub fn tr_updateContactState(state_r: &mut st_ClientLabelState, x: u64, n: u64, ver: u32) -> (r: (u64, Option<GoErr>))
    requires okw(n), x < n, forall|i: int| 0 <= i < old(state_r).Contact@.len() ==> (#[trigger] old(state_r).Contact@[i]).Position < n
    ensures final(state_r).Owner == old(state_r).Owner, final(state_r).Versions == old(state_r).Versions, r.1.is_none(), r.0 < n, ranc_eq(r.0 as int, x as int, n as int),
        forall|i: int| 0 <= i < final(state_r).Contact@.len() ==> (#[trigger] final(state_r).Contact@[i]).Position < n,
        monitors(n as int, old(state_r).Contact@, final(state_r).Contact@, x, ver)
//@attr #[verifier::allow_complex_invariants]
//@hint entry
    let ghost s0 = state; let ghost x0 = x; let ghost n_ = n as int; let ghost mut a = Map::<u64, u32>::empty(); let ghost mut mx = a;
//@hint after call al_NewContactState 1
    proof { a = RES.unwrap().Ptrs@; }
//@hint before loop 1
    proof {
        assert forall|p: u64| #[trigger] a.dom().contains(p) implies goes(n_, a, p, a[p]) by { assert(p < n); same_step(n_, p, p); }
        assert forall|i: int| 0 <= i < path@.len() implies ranc_eq(#[trigger] path@[i] as int, x0 as int, n_) && path@[i] < n by { if i > 0 { assert(path@[i] == path@.subrange(1, path@.len() as int)[i - 1]); } }
    }
//@loop 1
    invariant_except_break IDX == 0 ==> x == x0, IDX > 0 ==> goes(n_, contact.unwrap().Ptrs@, x0, ver),
    invariant n_ == n, okw(n), x0 < n, SEQ == path, IDX <= SEQ@.len(), contact.is_some(), !contact.unwrap().Ptrs.nil@, in_tree(n_, contact.unwrap().Ptrs@), state == s0, x < n, ranc_eq(x as int, x0 as int, n_), SEQ@.len() >= 1,
        forall|i: int| 0 <= i < path@.len() ==> ranc_eq(#[trigger] path@[i] as int, x0 as int, n_) && path@[i] < n,
        forall|p: u64| #[trigger] a.dom().contains(p) ==> p < n && goes(n_, contact.unwrap().Ptrs@, p, a[p]),
    ensures goes(n_, contact.unwrap().Ptrs@, x0, ver)
    decreases SEQ@.len() - IDX
//@hint before call tr_simplifyMonitoringMap 1
    proof { mx = contact.unwrap().Ptrs@; assert(goes(n_, mx, x0, ver)); }
//@hint break 1
    proof { same_step(n_, x0, pos); assert(contact.unwrap().Ptrs@.dom().contains(pos)); }
//@hint before mapstore 1
    proof { let m = contact.unwrap().Ptrs@; mx = m.insert(pos, ver); overwritten(n_, m, pos, ver); same_step(n_, x0, pos); assert(mx.dom().contains(pos)); assert(goes(n_, mx, x0, ver)); assert forall|p: u64| #[trigger] a.dom().contains(p) implies p < n && goes(n_, mx, p, a[p]) by { assert(goes(n_, m, p, a[p])); } }
//@hint return 1
    proof { let b = contact.unwrap().Ptrs@; assert(goes(n as int, mx, x0, ver)); assert(less(n as int, mx, b)); assert(lists(state.Contact@, b)); assert(goes(n_, b, x0, ver)); assert forall|p: u64| #[trigger] a.dom().contains(p) implies goes(n_, b, p, a[p]) by { assert(goes(n_, mx, p, a[p])); } assert(last_entry(s0.Contact@, s0.Contact@.len() as int, a));
        assert forall|i: int| 0 <= i < state.Contact@.len() implies (#[trigger] state.Contact@[i]).Position < n by { assert(contact.unwrap().Ptrs@.dom().contains(state.Contact@[i].Position)); } }
//@end
// ---- the versions whose VRF outputs and commitments are kept
//@ext slices.Sort[Slice<u32>]
pub fn slices_Sort_u32(v: &mut Slice<u32>)
    ensures final(v)@.len() == old(v)@.len(), final(v).nil == old(v).nil, forall|x: u32| final(v)@.contains(x) <==> old(v)@.contains(x), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j], old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
//@end
pub open spec fn in_ladders(vs: Seq<u32>, k: int, v: u32) -> bool { v == 0 || exists|i: int| 0 <= i < k && full_ladder(#[trigger] vs[i]).contains(v) }
pub proof fn ladders_step(vs: Seq<u32>, k: int, v: u32) requires 0 <= k < vs.len() ensures in_ladders(vs, k + 1, v) <==> in_ladders(vs, k, v) || full_ladder(vs[k]).contains(v)
{
    if v != 0 { 
        if in_ladders(vs, k, v) { let i = choose|i: int| 0 <= i < k && full_ladder(#[trigger] vs[i]).contains(v); assert(0 <= i < k + 1 && full_ladder(vs[i]).contains(v)); }
        if full_ladder(vs[k]).contains(v) { assert(0 <= k < k + 1); }
    }
}
//@go tree/transparency.allLadderVersions
pub fn tr_allLadderVersions(versions: Slice<u32>) -> (r: Slice<u32>)
    ensures forall|v: u32| r@.contains(v) <==> #[trigger] in_ladders(versions@, versions@.len() as int, v), r@.no_duplicates(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] <= r@[j]
//@hint entry
    let ghost mut k1 = 0int;
//@loop 1
    invariant SEQ == versions, IDX <= SEQ@.len(), !accumulated.nil@, forall|v: u32| #[trigger] accumulated@.dom().contains(v) <==> in_ladders(versions@, IDX as int, v)
//@hint before mapstore 2
    proof { let l = full_ladder(ver); let k = IDX2 - 1; assert(l[k] == ladder); assert forall|v: u32| among(l, k + 1, v) <==> #[trigger] among(l, k, v) || v == ladder by { if among(l, k, v) { let j = choose|j: int| 0 <= j < k && #[trigger] l[j] == v; assert(l[j] == v); } } }
//@hint before loop 2
    proof { k1 = IDX1 - 1; assert(Set::<u32>::empty().union(Set::<u32>::empty()) =~= Set::<u32>::empty()); }
//@loop 2
    invariant SEQ1 == versions, 0 <= k1 < versions@.len(), IDX1 == k1 + 1, ver == versions@[k1], SEQ@ == full_ladder(ver), IDX <= SEQ@.len(), !accumulated.nil@,
        forall|v: u32| #[trigger] accumulated@.dom().contains(v) <==> in_ladders(versions@, k1, v) || among(SEQ@, IDX as int, v)
//@hint after loop 2
    proof { let l = full_ladder(ver); 
        assert forall|v: u32| #[trigger] accumulated@.dom().contains(v) <==> in_ladders(versions@, k1 + 1, v) by { ladders_step(versions@, k1, v); if l.contains(v) { assert(among(l, l.len() as int, v)); } } }
//@loop 3
    invariant MAP == accumulated, SEQ@.no_duplicates(), IDX <= SEQ@.len(), sorted@ =~= SEQ@.subrange(0, IDX as int), forall|x: u32| #[trigger] accumulated@.dom().contains(x) ==> SEQ@.contains(x), forall|i: int| 0 <= i < SEQ@.len() ==> accumulated@.dom().contains(#[trigger] SEQ@[i])
    decreases SEQ@.len() - IDX
//@hint after loop 3
    proof { assert(sorted@ =~= SEQ3@); assert forall|v: u32| sorted@.contains(v) <==> #[trigger] in_ladders(versions@, versions@.len() as int, v) by { if sorted@.contains(v) { let i = choose|i: int| 0 <= i < sorted@.len() && sorted@[i] == v; assert(accumulated@.dom().contains(SEQ3@[i])); } if accumulated@.dom().contains(v) { assert(SEQ3@.contains(v)); } } }
//@end
// ---- what is retained about the versions
pub open spec fn owned(o: st_LabelOwnerState, k: int) -> Seq<u32> { (if o.VerAtStarting >= 0 { seq![o.VerAtStarting as u32] } else { Seq::<u32>::empty() }) + Seq::new(k as nat, |i: int| (o.VerAtStarting + i + 1) as u32) }
pub open spec fn in_monitored(c: Seq<st_MonitorMapEntry>, k: int, v: u32) -> bool { exists|i: int| 0 <= i < k && mladder((#[trigger] c[i]).Version).contains(v) }
pub open spec fn in_owned(o: Option<st_LabelOwnerState>, v: u32) -> bool { o.is_some() && in_ladders(owned(o.unwrap(), o.unwrap().UpcomingVers@.len() as int), owned(o.unwrap(), o.unwrap().UpcomingVers@.len() as int).len() as int, v) }
pub open spec fn owner_in(o: st_LabelOwnerState) -> bool { o.VerAtStarting >= -1 && o.VerAtStarting + o.UpcomingVers@.len() < 0x1_0000_0000 }
pub open spec fn has_version(s: Seq<st_RetainedVersion>, v: u32) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].Version == v }
pub open spec fn kept_of(m: Map<u32, px_Entry>, s: Seq<st_RetainedVersion>, k: int) -> bool { forall|i: int| 0 <= i < k ==> m.dom().contains((#[trigger] s[i]).Version) && s[i].VrfOutput == m[s[i].Version].VrfOutput && s[i].Commitment == m[s[i].Version].Commitment }
// exactly what monitoring needs is kept
pub open spec fn retained_for(s: st_ClientLabelState, m: Map<u32, px_Entry>) -> bool {
    &&& kept_of(m, s.Versions@, s.Versions@.len() as int)
    &&& forall|v: u32| #[trigger] has_version(s.Versions@, v) <==> in_monitored(s.Contact@, s.Contact@.len() as int, v) || in_owned(s.Owner, v)
}
//@go tree/transparency/algorithms.ReceivedProofHandle.GetVersion
pub fn al_GetVersion(rph: al_ReceivedProofHandle, ver: u32) -> (r: (px_Entry, bool)) requires !rph.versions.nil@ ensures r.1 == rph.versions@.dom().contains(ver), r.1 ==> r.0 == rph.versions@[ver]
//@end
//@go tree/transparency.updateRetainedVersions
pub fn tr_updateRetainedVersions(state_r: &mut st_ClientLabelState, handle: al_ReceivedProofHandle) -> (r: Option<GoErr>)
    requires !handle.versions.nil@, old(state_r).Owner.is_some() ==> owner_in(old(state_r).Owner.unwrap())
    ensures final(state_r).Owner == old(state_r).Owner, final(state_r).Contact == old(state_r).Contact, r.is_some() ==> *final(state_r) == *old(state_r), r.is_none() ==> retained_for(*final(state_r), handle.versions@)
//@hint entry
    let ghost s0 = state; let ghost c = state.Contact@; let ghost mut k1 = 0int; let ghost cn = state.Contact@.len() as int; let ghost mut mo = Map::<u32, ()>::empty(); let ghost mut al = Seq::<u32>::empty();
//@loop 1
    invariant state == s0, SEQ@ == c, IDX <= SEQ@.len(), !required.nil@, forall|v: u32| #[trigger] required@.dom().contains(v) <==> in_monitored(c, IDX as int, v)
//@hint before loop 2
    proof { k1 = IDX1 - 1; }
//@loop 2
    invariant state == s0, SEQ1@ == c, 0 <= k1 < c.len(), IDX1 == k1 + 1, entry == c[k1], SEQ@ == mladder(entry.Version), IDX <= SEQ@.len(), !required.nil@,
        forall|v: u32| #[trigger] required@.dom().contains(v) <==> in_monitored(c, k1, v) || among(SEQ@, IDX as int, v)
//@hint before mapstore 1
    proof { let l = mladder(entry.Version); let k = IDX2 - 1; assert(l[k] == ver); assert forall|v: u32| among(l, k + 1, v) <==> #[trigger] among(l, k, v) || v == ver by { if among(l, k, v) { let j = choose|j: int| 0 <= j < k && #[trigger] l[j] == v; assert(l[j] == v); } } }
//@hint after loop 2
    proof { let l = mladder(entry.Version);
        assert forall|v: u32| #[trigger] required@.dom().contains(v) <==> in_monitored(c, k1 + 1, v) by { mon_step(c, k1, v); if l.contains(v) { assert(among(l, l.len() as int, v)); } } }
//@hint after loop 1
    proof { mo = required@; }
//@loop 3
    invariant state == s0, state.Owner.is_some(), owner_in(state.Owner.unwrap()), starting == state.Owner.unwrap().VerAtStarting, IDX <= state.Owner.unwrap().UpcomingVers@.len(), ownedVersions@ == owned(state.Owner.unwrap(), IDX as int), required@ == mo, !required.nil@
//@hint before loop 4
    proof { al = SEQ4@; }
//@loop 4
    invariant state == s0, SEQ@ == al, IDX <= SEQ@.len(), !required.nil@, forall|v: u32| #[trigger] required@.dom().contains(v) <==> mo.dom().contains(v) || among(al, IDX as int, v), forall|v: u32| al.contains(v) <==> #[trigger] in_owned(state.Owner, v)
//@loop 5
    invariant state == s0, MAP == required, SEQ@.no_duplicates(), IDX <= SEQ@.len(), retained@.len() == IDX, forall|i: int| 0 <= i < IDX ==> (#[trigger] retained@[i]).Version == SEQ@[i], kept_of(handle.versions@, retained@, IDX as int),
         forall|x: u32| #[trigger] required@.dom().contains(x) ==> SEQ@.contains(x), forall|i: int| 0 <= i < SEQ@.len() ==> required@.dom().contains(#[trigger] SEQ@[i])
    decreases SEQ@.len() - IDX
//@hint after loop 5
    proof { assert forall|v: u32| #[trigger] has_version(retained@, v) <==> required@.dom().contains(v) by { if has_version(retained@, v) { let i = choose|i: int| 0 <= i < retained@.len() && #[trigger] retained@[i].Version == v; assert(required@.dom().contains(SEQ5@[i])); } if required@.dom().contains(v) { let i = choose|i: int| 0 <= i < SEQ5@.len() && SEQ5@[i] == v; assert(retained@[i].Version == v); } } }
//@end
pub proof fn mon_step(c: Seq<st_MonitorMapEntry>, k: int, v: u32) requires 0 <= k < c.len() ensures in_monitored(c, k + 1, v) <==> in_monitored(c, k, v) || mladder(c[k].Version).contains(v)
{
    if in_monitored(c, k, v) { let i = choose|i: int| 0 <= i < k && mladder((#[trigger] c[i]).Version).contains(v); assert(0 <= i < k + 1 && mladder(c[i].Version).contains(v)); }
}
