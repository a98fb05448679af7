//@use provider.vrs
//@typemap time.Time Time
// ---- C11: distinguished entries, by timestamps alone
// F gives every log entry's timestamp; agree: F says what was revealed.
pub open spec fn agree(m: Map<u64, u64>, f: spec_fn(int) -> int) -> bool { forall|x: u64| #[trigger] m.dom().contains(x) ==> f(x as int) == m[x] }
pub open spec fn rmw(c: st_PublicConfig) -> int { c.Config.ReasonableMonitoringWindow as int }
pub open spec fn is_dist(c: st_PublicConfig, l: int, r: int) -> bool { r - l >= rmw(c) }
pub open spec fn is_exp(c: st_PublicConfig, ts: int, rightmost: int) -> bool { c.Config.MaximumLifetime != 0 && rightmost - ts >= c.Config.MaximumLifetime }
// x is distinguished, seen from its ancestor cur whose neighbours' timestamps
// are l and r
pub open spec fn distd(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int, cur: int, l: int, r: int) -> bool
    decreases lvl(cur)
{
    is_dist(c, l, r) && (x == cur
        || x < cur && lvl(cur) >= 1 && lvl(left_of(cur)) < lvl(cur) && distd(c, n, f, x, left_of(cur), l, f(cur))
        || x > cur && cur + 1 < n && lvl(cur) >= 1 && lvl(right_of(cur, n)) < lvl(cur) && distd(c, n, f, x, right_of(cur, n), f(cur), r))
}
pub open spec fn dist(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, x: int) -> bool { 0 <= x < n && distd(c, n, f, x, root_of(n), 0, f(n - 1)) }
// the rightmost distinguished entry among those before k
pub open spec fn rightmost_is(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, k: int, r: Option<u64>) -> bool {
    match r {
        None => forall|y: int| 0 <= y < k ==> !#[trigger] dist(c, n, f, y),
        Some(x) => x < k && dist(c, n, f, x as int) && forall|y: int| x < y < k ==> !#[trigger] dist(c, n, f, y),
    }
}
// above cur every entry is distinguished and cur's neighbours have
// timestamps l and r: what is distinguished below cur is decided from cur
pub open spec fn seen_from(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, cur: int, l: int, r: int) -> bool {
    forall|y: int| cur_covers(cur, n, y) ==> (#[trigger] dist(c, n, f, y) <==> distd(c, n, f, y, cur, l, r))
}
// y is in cur's subtree of the tree of n entries
pub open spec fn cur_covers(cur: int, n: int, y: int) -> bool { 0 <= y < n && under(y, cur) }
pub proof fn at_root(c: st_PublicConfig, n: int, f: spec_fn(int) -> int) requires n >= 1 ensures seen_from(c, n, f, root_of(n), 0, f(n - 1)), is_root(root_of(n), n) { root_exists(n); }
pub proof fn go_left(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, cur: int, l: int, r: int)
    requires 0 <= cur < n, lvl(cur) >= 1, seen_from(c, n, f, cur, l, r), is_dist(c, l, r)
    ensures seen_from(c, n, f, left_of(cur), l, f(cur)), 0 <= left_of(cur) < cur, nl(left_of(cur)) == nl(cur), nh(left_of(cur)) == cur, lvl(left_of(cur)) < lvl(cur)
{
    lvl_props(cur); left_props(cur); lvl_props(left_of(cur));
    assert forall|y: int| cur_covers(left_of(cur), n, y) implies (#[trigger] dist(c, n, f, y) <==> distd(c, n, f, y, left_of(cur), l, f(cur))) by { assert(cur_covers(cur, n, y)); }
}
pub proof fn go_right(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, cur: int, l: int, r: int)
    requires 0 <= cur, cur + 1 < n, lvl(cur) >= 1, seen_from(c, n, f, cur, l, r), is_dist(c, l, r)
    ensures seen_from(c, n, f, right_of(cur, n), f(cur), r), cur < right_of(cur, n) < n, nl(right_of(cur, n)) == cur + 1, min2(nh(right_of(cur, n)), n) == min2(nh(cur), n), lvl(right_of(cur, n)) < lvl(cur)
{
    lvl_props(cur); right_exists(cur, n); lvl_props(right_of(cur, n)); pw_pos(lvl(right_of(cur, n)));
    assert forall|y: int| cur_covers(right_of(cur, n), n, y) implies (#[trigger] dist(c, n, f, y) <==> distd(c, n, f, y, right_of(cur, n), f(cur), r)) by { assert(cur_covers(cur, n, y)); }
}
pub proof fn agree_ext(a: al_DataProvider, b: al_DataProvider, f: spec_fn(int) -> int) requires ext_of(a, b), agree(b.timestamps@, f) ensures agree(a.timestamps@, f)
{ assert forall|x: u64| #[trigger] a.timestamps@.dom().contains(x) implies f(x as int) == a.timestamps@[x] by { assert(b.timestamps@.dom().contains(x)); } }
pub proof fn agree_at(a: al_DataProvider, x: u64, f: spec_fn(int) -> int) requires agree(a.timestamps@, f), has_ts(a, x) ensures f(x as int) == a.timestamps@[x] {}

//@go tree/transparency/structs.Config.IsDistinguished
//@attr wrap
pub fn st_IsDistinguished(c: st_Config, left: u64, right: u64) -> (r: bool)
    requires left <= right
    ensures r == (right - left >= c.ReasonableMonitoringWindow)
//@end
//@go tree/transparency/structs.Config.IsExpired
//@attr wrap
pub fn st_IsExpired(c: st_Config, ts: u64, rightmost: u64) -> (r: bool)
    requires ts <= rightmost
    ensures r == (c.MaximumLifetime != 0 && rightmost - ts >= c.MaximumLifetime)
//@end
//@go tree/transparency/algorithms.noLeftChild
pub fn al_noLeftChild(x: u64) -> (r: bool) ensures r == (lvl(x as int) == 0)
//@end
//@go tree/transparency/algorithms.hasLeftChild
pub fn al_hasLeftChild(x: u64) -> (r: bool) ensures r == (lvl(x as int) >= 1)
//@end
//@go tree/transparency/algorithms.noRightChild
pub fn al_noRightChild(x: u64, n: u64) -> (r: bool) requires n >= 1 ensures r == (lvl(x as int) == 0 || x == n - 1)
//@end
//@go tree/transparency/algorithms.hasRightChild
pub fn al_hasRightChild(x: u64, n: u64) -> (r: bool) requires n >= 1 ensures r == !(lvl(x as int) == 0 || x == n - 1)
//@end

//@go tree/transparency/algorithms.RightmostDistinguished
pub fn al_RightmostDistinguished(config: st_PublicConfig, n: u64, provider_r: &mut al_DataProvider) -> (r: (Option<u64>, Option<GoErr>))
    requires n == 0 || okw(n), wf(*old(provider_r)), !old(provider_r).handle.nil@ || forall|x: u64| spine(x as int, n as int) ==> #[trigger] has_ts(*old(provider_r), x)
    ensures ext_of(*old(provider_r), *final(provider_r)), ts_only(*old(provider_r), *final(provider_r)),
        r.1.is_none() ==> good(*old(provider_r), *final(provider_r)) && (r.0.is_some() ==> r.0.unwrap() < n) && (n > 0 ==> has_ts(*final(provider_r), (n - 1) as u64)),
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(provider_r).timestamps@, f) ==> rightmost_is(config, n as int, f, n as int, r.0),
        r.1.is_some() ==> fails(*old(provider_r), *final(provider_r)),
        r.1.is_none() && r.0.is_some() ==> spine(r.0.unwrap() as int, n as int),
        (forall|x: u64| spine(x as int, n as int) ==> #[trigger] has_ts(*old(provider_r), x)) ==> r.1.is_none() && *final(provider_r) == *old(provider_r),
//@hint entry
    let ghost p0 = provider;
    proof { good_refl(provider); if n > 0 { spine_last(n as int); } }
//@hint after call al_GetTimestamp 1
    let ghost p1 = provider;
    proof { good_trans(p0, *old(provider_r), provider); }
//@hint return 3
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n as int, None) by { agree_at(provider, (n - 1) as u64, f); at_root(config, n as int, f); } }
//@hint before loop 1
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies seen_from(config, n as int, f, x as int, 0, rightmost as int) by { agree_at(provider, (n - 1) as u64, f); at_root(config, n as int, f); } }
    let ghost mut l = 0int;
//@loop 1
    invariant okw(n), wf(provider), good(p0, provider), ts_only(p0, provider), spine(x as int, n as int), has_ts(provider, (n - 1) as u64), provider.timestamps@[(n - 1) as u64] == rightmost, is_dist(config, l, rightmost as int),
        (provider.handle.nil == p0.handle.nil), (forall|x: u64| spine(x as int, n as int) ==> #[trigger] has_ts(p0, x)) ==> provider == p0,
        forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) ==> seen_from(config, n as int, f, x as int, l, rightmost as int) && forall|y: int| nh(x as int) <= y < n ==> !dist(config, n as int, f, y),
    decreases n - x
//@hint return 4
    proof { lvl_props(x as int); assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n as int, Some(x)) by { assert(cur_covers(x as int, n as int, x as int)); assert(dist(config, n as int, f, x as int)); } }
//@hint after call al_GetTimestamp 2
    let ghost pp = provider;
    proof { good_trans(p0, pp, provider); spine_next(x as int, 0, n as int); lvl_props(x as int); if has_ts(p0, x) { } }
//@hint loop 1 top
    let ghost q0 = provider; let ghost x0 = x as int; let ghost l0 = l;
//@hint return 6
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n as int, Some(x)) by {
        agree_ext(q0, provider, f); agree_at(provider, x, f);
        reveal_with_fuel(distd, 2); assert(cur_covers(x0, n as int, x0)); assert(dist(config, n as int, f, x0));
        assert forall|y: int| x0 < y < n implies !#[trigger] dist(config, n as int, f, y) by { if y < nh(x0) { assert(cur_covers(x0, n as int, y)); } } } }
//@hint loop 1 bottom
    proof {
        l = timestamp as int;
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies seen_from(config, n as int, f, x as int, l, rightmost as int) && forall|y: int| nh(x as int) <= y < n ==> !dist(config, n as int, f, y) by {
            agree_ext(q0, provider, f); agree_at(provider, x0 as u64, f);
            go_right(config, n as int, f, x0, l0, rightmost as int); } }
//@end

pub proof fn tparent_unique(p: int, q: int, x: int, n: int) requires is_parent(p, x, n), is_parent(q, x, n), lvl(p) <= lvl(q) ensures p == q
{
    lvl_props(x); lvl_props(p); lvl_props(q); left_props(p); left_props(q); rstep_props(q); pw_pos(lvl(x)); pw_pos(lvl(p)); pw_pos(lvl(q));
    laminar(p, q);
    assert(under(x, p)); assert(under(x, q)); 
    if p != q {
        assert(under(p, q));
        under_split(p, q);
        under_nested(x, p);
        if p < q { under_nested(p, left_of(q)); } else { under_nested(p, rstep_of(q)); }
    }
}
pub open spec fn lb(n: int, f: spec_fn(int) -> int, x: int) -> int { if x == root_of(n) { 0 } else { f(choose|p: int| is_parent(p, x, n)) } }
pub proof fn lb_is(n: int, f: spec_fn(int) -> int, p: int, x: int) requires is_parent(p, x, n) ensures lb(n, f, x) == f(p), x != root_of(n)
{
    let q = choose|q: int| is_parent(q, x, n); assert(is_parent(q, x, n));
    if lvl(p) <= lvl(q) { tparent_unique(p, q, x, n); } else { tparent_unique(q, p, x, n); }
    root_exists(n); lvl_props(x); lvl_props(p); lvl_props(root_of(n)); left_props(p); pw_pos(lvl(x)); pw_pos(lvl(p));
    if x == root_of(n) { assert(under(x, p)); under_nested(x, p); }
}
// a distinguished entry on the right spine: its ancestors are distinguished,
// and its own bounds are its parent's timestamp and the rightmost one
pub proof fn spine_dist(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, cur: int, x: int)
    requires n >= 1, spine(cur, n), spine(x, n), cur <= x, dist(c, n, f, x), seen_from(c, n, f, cur, lb(n, f, cur), f(n - 1))
    ensures seen_from(c, n, f, x, lb(n, f, x), f(n - 1)), is_dist(c, lb(n, f, x), f(n - 1)),
        forall|p: int| cur <= p && #[trigger] is_parent(p, x, n) ==> dist(c, n, f, p),
    decreases x - cur
{
    lvl_props(cur); lvl_props(x); pw_pos(lvl(cur)); pw_pos(lvl(x));
    if cur == x {
        assert(cur_covers(x, n, x));
        assert forall|p: int| cur <= p && #[trigger] is_parent(p, x, n) implies dist(c, n, f, p) by { lvl_props(p); pw_pos(lvl(p)); left_props(p); assert(under(p, x)); under_nested(p, x); under_nested(x, p); }
    }
    else {
        spine_next(cur, x, n);
        assert(under(x, cur)); assert(cur_covers(cur, n, x));
        go_right(c, n, f, cur, lb(n, f, cur), f(n - 1));
        let y = right_of(cur, n);
        assert(is_parent(cur, y, n));
        lb_is(n, f, cur, y);
        spine_dist(c, n, f, y, x);
        assert(cur_covers(cur, n, cur));
        assert(dist(c, n, f, cur));
        assert forall|p: int| cur <= p && #[trigger] is_parent(p, x, n) implies dist(c, n, f, p) by { if p > cur { spine_parent(p, x, n); spine_next(cur, p, n); } }
    }
}
pub proof fn spine_parent(p: int, x: int, n: int) requires is_parent(p, x, n), spine(x, n) ensures spine(p, n), p < x, x < p ==> false, right_of(p, n) == x, p + 1 < n
{
    lvl_props(x); lvl_props(p); left_props(p); pw_pos(lvl(x)); pw_pos(lvl(p));
    right_is(x, p, n);
}
// what PreviousRightmost may read
pub open spec fn prev_known(dp: al_DataProvider, n: int) -> bool { has_ts(dp, (n - 1) as u64) && forall|x: u64| spine(x as int, n - 1) ==> #[trigger] has_ts(dp, x) }
pub proof fn prev_spine(dp: al_DataProvider, n: int) requires prev_known(dp, n), n >= 1 ensures forall|x: u64| spine(x as int, n) ==> #[trigger] has_ts(dp, x)
{ assert forall|x: u64| spine(x as int, n) implies #[trigger] has_ts(dp, x) by { if x < n - 1 { assert(spine(x as int, n - 1)); } } }

//@go tree/transparency/algorithms.PreviousRightmost
pub fn al_PreviousRightmost(config: st_PublicConfig, n: u64, provider_r: &mut al_DataProvider) -> (r: (Option<u64>, Option<GoErr>))
    requires okw(n), wf(*old(provider_r)), !old(provider_r).handle.nil@ || prev_known(*old(provider_r), n as int)
    ensures ext_of(*old(provider_r), *final(provider_r)), ts_only(*old(provider_r), *final(provider_r)),
        r.1.is_none() ==> good(*old(provider_r), *final(provider_r)) && (r.0.is_some() ==> r.0.unwrap() < n - 1),
        r.1.is_none() ==> forall|f: spec_fn(int) -> int| #[trigger] agree(final(provider_r).timestamps@, f) ==> rightmost_is(config, n as int, f, n - 1, r.0),
        r.1.is_some() ==> fails(*old(provider_r), *final(provider_r)),
        prev_known(*old(provider_r), n as int) ==> r.1.is_none() && *final(provider_r) == *old(provider_r),
//@hint entry
    let ghost p0 = provider; let ghost x = n - 1; let ghost mut l = 0int;
    proof { good_refl(provider); spine_last(n as int); root_exists(n as int); if prev_known(provider, n as int) { prev_spine(provider, n as int); } }
//@hint return 2
    proof { if rightmost.is_some() { spine_first(rightmost.unwrap() as int, n as int); }
      assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n - 1, rightmost) by { assert(rightmost_is(config, n as int, f, n as int, rightmost)); } }
//@hint after call tm_Parent 1
    proof { assert(is_parent(RES as int, x, n as int)); spine_parent(RES as int, x, n as int); assert(spine(RES as int, n - 1)); }
//@hint after call al_RightmostDistinguished 1
    let ghost p1 = provider;
//@hint after call al_GetTimestamp 1
    proof { good_trans(p0, p1, provider); assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies agree(p1.timestamps@, f) by { agree_ext(p1, provider, f); } }
//@hint before call al_GetTimestamp 2
    let ghost p2 = provider;
//@hint after call al_GetTimestamp 2
    proof { good_trans(p0, p2, provider);
        if parent.is_some() { assert(has_ts(p2, parent.unwrap())); assert(has_ts(provider, parent.unwrap())); }
        l = left as int;
        lvl_props(x); pw_pos(lvl(x));
        if RES1.is_none() {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies
            seen_from(config, n as int, f, x, l, RES0 as int) && is_dist(config, l, RES0 as int) && dist(config, n as int, f, x) && (parent.is_some() ==> dist(config, n as int, f, parent.unwrap() as int)) by {
            agree_ext(p2, provider, f); agree_at(provider, x as u64, f);
            assert(rightmost_is(config, n as int, f, n as int, rightmost));
            at_root(config, n as int, f);
            spine_first(x, n as int);
            assert(lb(n as int, f, root_of(n as int)) == 0);
            spine_dist(config, n as int, f, root_of(n as int), x);
            if parent.is_some() { agree_at(provider, parent.unwrap(), f); lb_is(n as int, f, parent.unwrap() as int, x); lvl_props(parent.unwrap() as int); spine_first(parent.unwrap() as int, n as int); }
        } } }
//@hint before loop 1
    let ghost mut lo = l; let ghost mut hi = x;
    proof {
        left_props(x); lvl_props(out as int);
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies seen_from(config, n as int, f, out as int, l, right as int) by { go_left(config, n as int, f, x, l, right as int); agree_at(provider, x as u64, f); };
    }
//@loop 1
    invariant okw(n), n >= 2, wf(provider), good(p0, provider), ts_only(p0, provider), provider.handle.nil == p0.handle.nil, x == n - 1, out < n - 1, nh(out as int) == n - 1, left <= right, is_dist(config, left as int, right as int),
        has_ts(provider, x as u64), provider.timestamps@[x as u64] == right, prev_known(p0, n as int) ==> provider == p0,
        forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) ==> seen_from(config, n as int, f, out as int, left as int, right as int) && forall|y: int| nh(out as int) <= y < n - 1 ==> !dist(config, n as int, f, y),
    decreases n - out
//@hint loop 1 top
    let ghost q0 = provider; let ghost x0 = out as int; let ghost l0 = left as int;
    proof { lvl_props(x0); pw_pos(lvl(x0)); assert(spine(x0, n - 1)); }
//@hint return 5
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n - 1, Some(out)) by { assert(cur_covers(x0, n as int, x0)); assert(dist(config, n as int, f, x0)); } }
//@hint after call al_GetTimestamp 3
    proof { good_trans(p0, q0, provider); }
//@hint return 7
    proof { assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n - 1, Some(out)) by {
        agree_ext(q0, provider, f); agree_at(provider, out, f);
        reveal_with_fuel(distd, 2); assert(cur_covers(x0, n as int, x0)); assert(dist(config, n as int, f, x0));
        assert forall|y: int| x0 < y < n - 1 implies !#[trigger] dist(config, n as int, f, y) by { if y < nh(x0) { assert(cur_covers(x0, n as int, y)); } } } }
//@hint loop 1 bottom
    proof {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies seen_from(config, n as int, f, out as int, left as int, right as int) && forall|y: int| nh(out as int) <= y < n - 1 ==> !dist(config, n as int, f, y) by {
            agree_ext(q0, provider, f); agree_at(provider, x0 as u64, f);
            go_right(config, n as int, f, x0, l0, right as int); } }
//@hint return 8
    proof {
        assert forall|f: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) implies rightmost_is(config, n as int, f, n - 1, parent) by {
            reveal_with_fuel(distd, 2);
            assert(dist(config, n as int, f, x));
            let p = if parent.is_some() { parent.unwrap() as int } else { -1 };
            if parent.is_some() { spine_parent(p, x, n as int); lvl_props(p); } 
            assert forall|y: int| p < y < n - 1 implies !#[trigger] dist(config, n as int, f, y) by {
                assert(cur_covers(x, n as int, y));
            }
        } }
//@end
