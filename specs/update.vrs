//@import monitor.vrs tladder.vrs
// ---- C13: label updates
//@ext tree/transparency/algorithms.ProofHandle.Tracker
pub fn h_Tracker(h: Handle) -> (r: tm_VersionTracker) requires !h.nil@
//@end
// y is an ancestor of t (or t itself) and not below x: y is above x
pub open spec fn on_way(t: int, y: int, n: int) -> bool { 0 <= y < n && under(t, y) }
pub proof fn way_left(t: int, cur: int, y: int, n: int) requires 0 <= t < cur < n, under(t, cur), lvl(cur) >= 1, on_way(t, y, n)
    ensures under(t, left_of(cur)), under(y, cur) && y != cur ==> under(y, left_of(cur)), under(y, left_of(cur)) ==> under(y, cur)
{ lvl_props(y); lvl_props(cur); left_props(cur); rstep_props(cur); under_split(t, cur); if under(y, cur) { under_split(y, cur); if under(y, rstep_of(cur)) { under_nested(y, rstep_of(cur)); } } }
pub proof fn way_right(t: int, cur: int, y: int, n: int) requires 0 <= cur < t < n, under(t, cur), lvl(cur) >= 1, on_way(t, y, n)
    ensures cur + 1 < n, under(t, right_of(cur, n)), under(y, cur) && y != cur ==> under(y, right_of(cur, n)), under(y, right_of(cur, n)) ==> under(y, cur)
{ lvl_props(y); lvl_props(cur); left_props(cur); right_exists(cur, n); lvl_props(right_of(cur, n)); if under(y, cur) && y < cur { under_split(y, cur); under_nested(y, left_of(cur)); } }
pub proof fn way_self(t: int, y: int) requires 0 <= t, 0 <= y, under(t, y), under(y, t) ensures y == t
{ lvl_props(t); lvl_props(y); under_nested(t, y); under_nested(y, t); laminar(t, y); if lvl(t) < lvl(y) { pw_pos(lvl(t)); } }
pub proof fn way_leaf(t: int, cur: int) requires 0 <= t, 0 <= cur, under(t, cur), t != cur ensures lvl(cur) >= 1
{ lvl_props(cur); lvl_props(t); if lvl(cur) == 0 { reveal_with_fuel(pw, 2); } }
// the first entry on the way to t that is not distinguished
pub open spec fn first_plain(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, t: int, r: Option<u64>) -> bool {
    match r {
        None => forall|y: int| #[trigger] on_way(t, y, n) ==> dist(c, n, f, y),
        Some(x) => (forall|y: int| #[trigger] on_way(t, y, n) && !under(y, x as int) ==> dist(c, n, f, y)) && forall|y: int| #[trigger] cur_covers(x as int, n, y) ==> !dist(c, n, f, y),
    }
}
//@go tree/transparency/algorithms.Monitor.nonDistinguishedAncestor
pub fn al_nonDistinguishedAncestor(m_r: &mut al_Monitor, target: u64) -> (r: (Option<u64>, Option<GoErr>))
    requires mon_ok(*old(m_r)), target < old(m_r).treeSize
    ensures mon_ext(*old(m_r), *final(m_r)), ts_only(old(m_r).provider, final(m_r).provider), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner == old(m_r).Owner,
        r.1.is_some() ==> fails(old(m_r).provider, final(m_r).provider),
        r.1.is_none() ==> good(old(m_r).provider, final(m_r).provider) && (r.0.is_some() ==> on_way(target as int, r.0.unwrap() as int, old(m_r).treeSize as int)),
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> first_plain(old(m_r).config, old(m_r).treeSize as int, f, target as int, r.0),
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost t = target as int;
    proof { good_refl(m.provider); bnd_root(m); }
//@hint after call al_GetTimestamp 1
    let ghost m1 = m;
    proof { mon_trans(m0, m0, m); if RES1.is_none() { assert(m0.provider.timestamps@.dom().contains((n - 1) as u64)); assert(m.provider.timestamps@[(n - 1) as u64] == m.rightmost); bnd_ext(m0.provider, m.provider, n, x as int, 0, m.rightmost); } }
//@hint before loop 1
    proof { lvl_props(x as int);
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies seen_from(c, n, f, x as int, left as int, right as int) by { agree_at(m.provider, (n - 1) as u64, f); at_root(c, n, f); }
        assert forall|y: int| #[trigger] on_way(t, y, n) implies under(y, x as int) by {}
        bnd_use(m.provider, n, x as int, left, right, x); }
//@loop 1
    invariant bnd(m.provider, n, x as int, left, right), left <= right, 0 <= x < n, under(t, x as int),
        forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) ==> seen_from(c, n, f, x as int, left as int, right as int),
        forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, n) && !under(y, x as int) ==> dist(c, n, f, y),
        mon_ok(m), m.config == c, m.treeSize == n, m.rightmost == m0.rightmost, m.Contact == m0.Contact, m.Owner == m0.Owner, good(m0.provider, m.provider), ts_only(m0.provider, m.provider), t == target, 0 <= t < n,
    decreases lvl(x as int)
//@hint loop 1 top
    let ghost q0 = m; let ghost x0 = x; let ghost l0 = left; let ghost r0 = right;
    proof { lvl_props(x as int); lvl_props(t); if x != t { way_leaf(t, x as int); }
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies (is_dist(c, left as int, right as int) ==> dist(c, n, f, x as int)) by { assert(cur_covers(x as int, n, x as int)); reveal_with_fuel(distd, 2); } }
//@hint return 2
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies first_plain(c, n, f, t, Some(x)) by {
        assert forall|y: int| #[trigger] cur_covers(x as int, n, y) implies !dist(c, n, f, y) by { reveal_with_fuel(distd, 2); } } }
//@hint return 3
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies first_plain(c, n, f, t, None) by {
        assert forall|y: int| #[trigger] on_way(t, y, n) implies dist(c, n, f, y) by { if under(y, x as int) { way_self(t, y); } } } }
//@hint after call al_GetTimestamp 2
    proof { good_trans(m0.provider, q0.provider, m.provider); mon_trans(m0, q0, m);
        if RES1.is_none() {
            bnd_ext(q0.provider, m.provider, n, x0 as int, l0, r0); bnd_use(m.provider, n, x0 as int, l0, r0, x0);
            if t < x0 { way_left(t, x0 as int, t, n); } else { way_right(t, x0 as int, t, n); }
        } }
//@hint loop 1 bottom
    proof {
        if t < x0 { bnd_left(m.provider, n, x0, l0, r0); left_props(x0 as int); } else { bnd_right(m.provider, n, x0, l0, r0); right_exists(x0 as int, n); }
        lvl_props(x as int);
        bnd_use(m.provider, n, x as int, left, right, x);
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies seen_from(c, n, f, x as int, left as int, right as int) by {
            agree_ext(q0.provider, m.provider, f); agree_at(m.provider, x0, f);
            if t < x0 { go_left(c, n, f, x0 as int, l0 as int, r0 as int); } else { go_right(c, n, f, x0 as int, l0 as int, r0 as int); } }
        assert forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, n) && !under(y, x as int) implies dist(c, n, f, y) by {
            agree_ext(q0.provider, m.provider, f);
            if t < x0 { way_left(t, x0 as int, y, n); } else { way_right(t, x0 as int, y, n); } }
    }
//@end
// ---- the previous tree: the first pos entries
pub open spec fn gv(o: al_OwnerState) -> int { o.VerAtStarting + o.UpcomingVers@.len() }
pub open spec fn last_upd(o: al_OwnerState) -> u64 { if o.UpcomingVers@.len() > 0 { o.UpcomingVers@.last() } else { o.Starting } }
// entry y showed a ladder for v that ends in v, or that there is no version
pub open spec fn tgt(v: int) -> u32 { if v < 0 { 0 } else { v as u32 } }
pub open spec fn confirmed(k: int, b: al_DataProvider, y: int, v: int) -> bool { sought(k, b, tgt(v), y, if v < 0 { -1 } else { 0 }) }
// an entry gave a ladder for v that ends in something else
pub open spec fn denied(k: int, b: al_DataProvider, v: int) -> bool { exists|y: int, r: int| #[trigger] sought(k, b, tgt(v), y, r) && r != (if v < 0 { -1int } else { 0 }) }
pub proof fn denied_ext(k: int, a: al_DataProvider, b: al_DataProvider, v: int) requires ext_of(a, b), denied(k, a, v) ensures denied(k, b, v)
{ let (y, r) = choose|y: int, r: int| #[trigger] sought(k, a, tgt(v), y, r) && r != (if v < 0 { -1int } else { 0 }); sought_ext(k, a, b, tgt(v)); assert(sought(k, b, tgt(v), y, r)); }
// what was the frontier of the tree of pos entries showed that v is still the greatest,
// where it was not checked before and is not checked when the entry is distinguished
pub open spec fn prior_ok(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, k: int, b: al_DataProvider, pos: int, last: int, v: int) -> bool {
    forall|y: int| #[trigger] on_way(pos - 1, y, pos) && y > last && !dist(c, n, f, y) ==> confirmed(k, b, y, v)
}
pub proof fn prior_left(t: int, x: int, n: int, pos: int, y: int) requires 0 <= t < x < n, t == pos - 1, under(t, x), on_way(t, y, pos), under(y, x) ensures lvl(x) >= 1, under(t, left_of(x)), under(y, left_of(x))
{ way_leaf(t, x); way_left(t, x, y, n); }
//@go tree/transparency/algorithms.Monitor.verifyPreviousTree
pub fn al_verifyPreviousTree(m_r: &mut al_Monitor, pos: u64) -> (r: Option<GoErr>)
    requires mon_ok(*old(m_r)), 0 < pos < old(m_r).treeSize, old(m_r).Owner.is_some(), owner_ok(old(m_r).Owner.unwrap())
    ensures mon_ext(*old(m_r), *final(m_r)), final(m_r).Contact == old(m_r).Contact, final(m_r).Owner == old(m_r).Owner,
        r.is_some() ==> fails(old(m_r).provider, final(m_r).provider) || denied(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, gv(old(m_r).Owner.unwrap())),
        r.is_none() ==> good(old(m_r).provider, final(m_r).provider),
        r.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> prior_ok(old(m_r).config, old(m_r).treeSize as int, f, old(m_r).provider.handle.log@.len() as int, final(m_r).provider, pos as int, last_upd(old(m_r).Owner.unwrap()) as int, gv(old(m_r).Owner.unwrap())),
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost t = pos - 1; let ghost k0 = m.provider.handle.log@.len() as int; let ghost v = gv(m.Owner.unwrap()); let ghost last = last_upd(m.Owner.unwrap()) as int;
    let ghost tv = tgt(v);
    proof { good_refl(m.provider); lvl_props(t); }
//@hint after call al_nonDistinguishedAncestor 1
    let ghost m1 = m;
//@hint return 2
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies prior_ok(c, n, f, k0, m.provider, pos as int, last, v) by {
        assert(first_plain(c, n, f, t, None));
        assert forall|y: int| #[trigger] on_way(t, y, pos as int) implies dist(c, n, f, y) by { assert(on_way(t, y, n)); } } }
//@hint before loop 1
    proof { assert forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, pos as int) && !dist(c, n, f, y) implies under(y, x as int) by { assert(first_plain(c, n, f, t, Some(x))); assert(on_way(t, y, n)); } }
//@loop 1
    invariant m == m1, pos < n, 0 <= t == pos - 1, 0 <= x < n, under(t, x as int),
        forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, pos as int) && !dist(c, n, f, y) ==> under(y, x as int),
    decreases x
//@hint loop 1 top
    let ghost x0 = x;
    proof { assert(under(t, t)); assert(on_way(t, t, pos as int)); lvl_props(t); prior_left(t, x as int, n, pos as int, t);
        assert forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, pos as int) && !dist(c, n, f, y) implies under(y, left_of(x as int)) by { prior_left(t, x0 as int, n, pos as int, y); } }
//@hint before loop 2
    proof { assert forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, pos as int) && !dist(c, n, f, y) && !under(y, x as int) implies confirmed(k0, m.provider, y, v) by { } }
//@loop 2
    invariant mon_ok(m), mon_ext(m0, m), mon_ext(m1, m), good(m0.provider, m.provider), m.Contact == m0.Contact, m.Owner == m0.Owner, m0.Owner.is_some(), owner_ok(m0.Owner.unwrap()), v == gv(m0.Owner.unwrap()), greatestVer == v, lastUpdate == last, pos < n, 0 <= t == pos - 1, 0 <= x <= t, under(t, x as int), n == m0.treeSize, c == m0.config, k0 == m0.provider.handle.log@.len(), last == last_upd(m0.Owner.unwrap()), tv == tgt(v),
        forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, pos as int) && !dist(c, n, f, y) && y > last && !under(y, x as int) ==> confirmed(k0, m.provider, y, v),
    decreases pos - x
//@hint loop 2 top
    let ghost q0 = m; let ghost x0 = x;
    proof { lvl_props(x as int); if x != t { way_leaf(t, x as int); } }
//@hint after call al_GetSearchBinaryLadder
    proof { good_trans(m0.provider, q0.provider, m.provider); good_trans(m1.provider, q0.provider, m.provider); mon_trans(m0, q0, m); mon_trans(m1, q0, m); sought_ext(k0, q0.provider, m.provider, tv);
        if RES1.is_none() { sought_now(k0, q0.provider, m.provider, tv, x, RES0 as int); } }
//@hint return 7
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies prior_ok(c, n, f, k0, m.provider, pos as int, last, v) by {
        agree_ext(q0.provider, m.provider, f);
        assert forall|y: int| #[trigger] on_way(t, y, pos as int) && y > last && !dist(c, n, f, y) implies confirmed(k0, m.provider, y, v) by { if under(y, x as int) { way_self(t, y); } else { assert(confirmed(k0, q0.provider, y, v)); } } } }
//@hint loop 2 bottom
    proof { assert(on_way(t, t, pos as int)); way_right(t, x0 as int, t, pos as int);
        assert forall|f: spec_fn(int) -> int, y: int| #[trigger] agree(m.provider.timestamps@, f) && #[trigger] on_way(t, y, pos as int) && !dist(c, n, f, y) && y > last && !under(y, x as int) implies confirmed(k0, m.provider, y, v) by {
            agree_ext(q0.provider, m.provider, f); way_right(t, x0 as int, y, pos as int);
            if y != x0 { assert(!under(y, x0 as int)); assert(confirmed(k0, q0.provider, y, v)); } } }
//@end
// the versions among those from start to end that a search ladder for end leaves out
pub open spec fn left_out(end: u32, w: u32) -> bool { !sl(bladder(end), end, end as int, Set::empty()).contains(w) }
pub open spec fn extras(vs: Seq<u32>, start: int, end: u32) -> bool { forall|w: u32| #[trigger] vs.contains(w) <==> start <= w <= end && left_out(end, w) }
// entry x showed that the versions vs are included
pub open spec fn shown_in(k: int, b: al_DataProvider, x: int, vs: Seq<u32>) -> bool { vs.len() == 0 || exists|i: int| 0 <= k <= i < b.handle.log@.len() && is_incls(#[trigger] b.handle.log@[i], x, vs) }
pub open spec fn is_incls(e: Ev, x: int, vs: Seq<u32>) -> bool { match e { Ev::Incl(y, ws, _) => y == x && ws == vs, _ => false } }
pub open spec fn update_args(m: al_Monitor, pos: u64, versions: i64) -> bool {
    m.Owner.is_some() && pos < m.treeSize && pos > last_upd(m.Owner.unwrap()) && versions >= 1 && gv(m.Owner.unwrap()) + versions < 0xffff_ffff
}
pub open spec fn end_of(o: al_OwnerState, versions: i64) -> u32 { (gv(o) + versions) as u32 }
// what the previous tree showed goes on being so
pub proof fn prior_ext(m0: al_Monitor, a: al_Monitor, b: al_Monitor, pos: int, k: int, o: al_OwnerState) requires mon_ext(a, b)
    ensures (forall|f: spec_fn(int) -> int| #[trigger] agree(a.provider.timestamps@, f) ==> prior_ok(m0.config, m0.treeSize as int, f, k, a.provider, pos, last_upd(o) as int, gv(o)))
        ==> forall|f: spec_fn(int) -> int| #[trigger] agree(b.provider.timestamps@, f) ==> prior_ok(m0.config, m0.treeSize as int, f, k, b.provider, pos, last_upd(o) as int, gv(o)),
        denied(k, a.provider, gv(o)) ==> denied(k, b.provider, gv(o)),
{
    if denied(k, a.provider, gv(o)) { denied_ext(k, a.provider, b.provider, gv(o)); }
    sought_ext(k, a.provider, b.provider, tgt(gv(o)));
    if forall|f: spec_fn(int) -> int| #[trigger] agree(a.provider.timestamps@, f) ==> prior_ok(m0.config, m0.treeSize as int, f, k, a.provider, pos, last_upd(o) as int, gv(o)) {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(b.provider.timestamps@, f) implies prior_ok(m0.config, m0.treeSize as int, f, k, b.provider, pos, last_upd(o) as int, gv(o)) by {
            agree_ext(a.provider, b.provider, f);
            assert forall|y: int| #[trigger] on_way(pos - 1, y, pos) && y > last_upd(o) && !dist(m0.config, m0.treeSize as int, f, y) implies confirmed(k, b.provider, y, gv(o)) by { assert(confirmed(k, a.provider, y, gv(o))); } } }
}
//@go tree/transparency/algorithms.Monitor.Update
//@attr iwrap
//@attr #[verifier::spinoff_prover]
pub fn al_Update(m_r: &mut al_Monitor, pos: u64, versions: i64) -> (r: Option<GoErr>)
    requires mon_ok(*old(m_r)), contact_ok(*old(m_r)), old(m_r).Owner.is_some() ==> owner_ok(old(m_r).Owner.unwrap())
    ensures mon_ext(*old(m_r), *final(m_r)), contact_ok(*final(m_r)),
        // an error leaves the state as it was, and has one of these reasons
        r.is_some() ==> final(m_r).Contact == old(m_r).Contact && final(m_r).Owner == old(m_r).Owner,
        r.is_some() ==> !update_args(*old(m_r), pos, versions) || fails(old(m_r).provider, final(m_r).provider)
            || denied(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, gv(old(m_r).Owner.unwrap())) || denied(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, end_of(old(m_r).Owner.unwrap(), versions) as int),
        r.is_none() ==> good(old(m_r).provider, final(m_r).provider) && update_args(*old(m_r), pos, versions),
        // the previous tree had no further versions
        r.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> prior_ok(old(m_r).config, old(m_r).treeSize as int, f, old(m_r).provider.handle.log@.len() as int, final(m_r).provider, pos as int, last_upd(old(m_r).Owner.unwrap()) as int, gv(old(m_r).Owner.unwrap())),
        // every new version is there, by inclusion or by the ladder for the last of them
        r.is_none() ==> exists|vs: Seq<u32>| #[trigger] extras(vs, gv(old(m_r).Owner.unwrap()) + 1, end_of(old(m_r).Owner.unwrap(), versions)) && shown_in(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, pos as int, vs),
        // which is given now and monitored, or is left to the monitoring of distinguished entries
        r.is_none() ==> {
            ||| final(m_r).Contact == old(m_r).Contact && forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> dist(old(m_r).config, old(m_r).treeSize as int, f, pos as int)
            ||| confirmed(old(m_r).provider.handle.log@.len() as int, final(m_r).provider, pos as int, end_of(old(m_r).Owner.unwrap(), versions) as int)
                && ptrs_of(final(m_r).Contact) == ptrs_of(old(m_r).Contact).insert(pos, end_of(old(m_r).Owner.unwrap(), versions))
                && forall|f: spec_fn(int) -> int| #[trigger] agree(final(m_r).provider.timestamps@, f) ==> !dist(old(m_r).config, old(m_r).treeSize as int, f, pos as int)
        },
        // the owner expects the new versions from pos on
        r.is_none() ==> final(m_r).Owner.is_some() && owner_ok(final(m_r).Owner.unwrap()) && final(m_r).Owner.unwrap().Starting == old(m_r).Owner.unwrap().Starting && final(m_r).Owner.unwrap().VerAtStarting == old(m_r).Owner.unwrap().VerAtStarting
            && final(m_r).Owner.unwrap().UpcomingVers@ == old(m_r).Owner.unwrap().UpcomingVers@ + Seq::new(versions as nat, |i: int| pos),
//@hint entry
    let ghost m0 = m; let ghost n = m.treeSize as int; let ghost c = m.config; let ghost k0 = m.provider.handle.log@.len() as int;
    let ghost o0 = m.Owner; let ghost mut m1 = m; let ghost mut m2 = m; let ghost mut m3 = m; let ghost mut plain: Option<u64> = None; let ghost mut lad = Seq::<u32>::empty();
    proof { good_refl(m.provider); }
//@hint before loop 1
    proof { lad = sl(bladder(endVer), endVer, endVer as int, Set::empty()); assert(endVer == end_of(o0.unwrap(), versions)); assert(update_args(m0, pos, versions)); assert(startVer == gv(o0.unwrap()) + 1); }
//@loop 1
    invariant m == m0, SEQ@ == lad, !ladder.nil@, forall|w: u32| #[trigger] ladder@.dom().contains(w) <==> SEQ@.subrange(0, IDX as int).contains(w),
    decreases SEQ@.len() - IDX
//@hint loop 1 bottom
    proof { let a = SEQ1@.subrange(0, IDX1 - 1); assert(SEQ1@.subrange(0, IDX1 as int) =~= a.push(ver)); push_contains(a, ver); }
//@hint after loop 1
    proof { assert(SEQ1@.subrange(0, SEQ1@.len() as int) =~= lad); }
//@loop 2
    invariant m == m0, startVer <= ver, ver <= endVer + 1, endVer < 0xffff_ffff, startVer <= endVer, forall|w: u32| #[trigger] ladder@.dom().contains(w) <==> lad.contains(w),
        forall|w: u32| #[trigger] additional@.contains(w) <==> startVer <= w < ver && !lad.contains(w),
    decreases endVer + 1 - ver
//@hint loop 2 top
    let ghost a0 = additional@;
    proof { push_contains(a0, ver); }
//@hint after loop 2
    proof { assert(extras(additional@, gv(o0.unwrap()) + 1, endVer)); }
//@hint after call tm_SearchBinaryLadder 1
    proof { assert(Map::<u32, ()>::empty().dom().union(Map::<u32, ()>::empty().dom()) =~= Set::<u32>::empty()); }
//@hint after call al_verifyPreviousTree 1
    proof { m1 = m; }
//@hint after call al_nonDistinguishedAncestor 1
    proof { m3 = m; good_trans(m0.provider, m1.provider, m.provider); mon_trans(m0, m1, m);
        if RES1.is_none() { prior_ext(m0, m1, m, pos as int, k0, o0.unwrap());
            if RES0.is_none() { assert(on_way(pos as int, pos as int, n)) by { lvl_props(pos as int); } 
                assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies dist(c, n, f, pos as int) by { assert(first_plain(c, n, f, pos as int, None)); } }
            else { assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies !dist(c, n, f, pos as int) by { assert(first_plain(c, n, f, pos as int, RES0)); assert(cur_covers(RES0.unwrap() as int, n, pos as int)); } } } }
//@hint after call al_GetSearchBinaryLadder
    proof { good_trans(m0.provider, m3.provider, m.provider); mon_trans(m0, m3, m);
        if RES1.is_none() { sought_now(k0, m3.provider, m.provider, endVer, pos, RES0 as int); prior_ext(m0, m3, m, pos as int, k0, o0.unwrap());
            assert(tgt(endVer as int) == endVer); if RES0 != 0 { assert(denied(k0, m.provider, endVer as int)); } else { assert(confirmed(k0, m.provider, pos as int, endVer as int)); }
            assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies !dist(c, n, f, pos as int) by { agree_ext(m3.provider, m.provider, f); } }
        m3 = m; }
//@hint after call al_GetInclusionProof
    proof { good_trans(m0.provider, m3.provider, m.provider); mon_trans(m0, m3, m); sought_ext(k0, m3.provider, m.provider, endVer);
        if RES.is_none() { prior_ext(m0, m3, m, pos as int, k0, o0.unwrap());
            if additional@.len() > 0 { assert(is_incls(m.provider.handle.log@[m.provider.handle.log@.len() - 1], pos as int, additional@)); }
            assert(shown_in(k0, m.provider, pos as int, additional@));
            assert forall|f: spec_fn(int) -> int| #[trigger] agree(m.provider.timestamps@, f) implies agree(m3.provider.timestamps@, f) by { agree_ext(m3.provider, m.provider, f); } } }
//@hint before loop 3
    let ghost m4 = m;
//@loop 3
    invariant SEQ == versions, mon_ext(m0, m), m.Contact == m4.Contact, m.provider == m4.provider, m.config == m4.config, m.treeSize == m4.treeSize, m.rightmost == m4.rightmost, m.Owner.is_some(), o0.is_some(), m.Owner.unwrap().Starting == o0.unwrap().Starting, m.Owner.unwrap().VerAtStarting == o0.unwrap().VerAtStarting,
        m.Owner.unwrap().UpcomingVers@ == o0.unwrap().UpcomingVers@ + Seq::new(IDX as nat, |i: int| pos),
    decreases SEQ - IDX
//@hint loop 3 bottom
    proof { assert(Seq::new(IDX3 as nat, |i: int| pos) =~= Seq::new((IDX3 - 1) as nat, |i: int| pos).push(pos)); assert(m.Owner.unwrap().UpcomingVers@ =~= o0.unwrap().UpcomingVers@ + Seq::new(IDX3 as nat, |i: int| pos)); }
//@hint after loop 3
    proof { let a = o0.unwrap().UpcomingVers@; let b = m.Owner.unwrap().UpcomingVers@; assert(sorted_u64(b)) by { assert forall|i: int, j: int| 0 <= i <= j < b.len() implies b[i] <= b[j] by { if i < a.len() { assert(a[i] <= a.last()); if j < a.len() {} } } } }
//@end
