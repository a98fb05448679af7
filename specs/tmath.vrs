//@use bits.vrs
// ---- contracts of tree/transparency/math: the search tree over n log entries
// (nodes [0, n), C10)

pub open spec fn okw(n: u64) -> bool { 1 <= n }
// y is on the right spine of the tree of n nodes
pub open spec fn spine(y: int, n: int) -> bool { 0 <= y < n && nh(y) >= n }
pub open spec fn increasing(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn decreasing(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] > s[j] }

//@go tree/transparency/math.IsLeaf
pub fn tm_IsLeaf(x: u64) -> (r: bool)
    ensures r == (x % 2 == 0), r == (lvl(x as int) == 0)
//@hint entry
    assert((x & 1 == 0) == (x % 2 == 0)) by(bit_vector);
    proof { lvl_props(x as int); }
//@end

//@go tree/transparency/math.level
pub fn tm_level(x: u64) -> (r: u64)
    requires x < u64::MAX
    ensures r == lvl(x as int), r <= 63
//@hint entry
    proof { lvl_bound(x); lvl_props(x as int); assert(x >> 0u64 == x) by(bit_vector); }
//@loop 1
    invariant k <= lvl(x as int), lvl(x as int) <= 63, lvl(x as int) == k + lvl((x >> k) as int),
    decreases 64 - k
//@hint loop 1 top
    proof {
        let y = x >> k;
        assert(y & 1 == 1 ==> y % 2 == 1) by(bit_vector);
        lvl_props(y as int);
        if k < 63 { shr_step(x, k); }
    }
//@hint after loop 1
    proof {
        let y = x >> k;
        assert(y & 1 == 1 || y % 2 == 0) by(bit_vector);
        lvl_props(y as int);
    }
//@end

//@go tree/transparency/math.log2
pub fn tm_log2(x: u64) -> (r: u64)
    ensures x == 0 ==> r == 0, x >= 1 ==> is_log2(r as int, x as int)
//@loop 1
    invariant k <= 64, x >= 1, k >= 1 ==> x >= pw((k - 1) as nat),
    decreases 64 - k
//@hint loop 1 top
    proof { shr_pos(x, k); }
//@hint after loop 1
    proof { pw64(); if k < 64 { shr_pos(x, k); } pw_pos(0); }
//@end

//@go tree/transparency/math.Root
pub fn tm_Root(n: u64) -> (r: u64)
    ensures n >= 1 ==> is_root(r as int, n as int) && r == root_of(n as int) && spine(r as int, n as int), n == 0 ==> r == 0
//@hint after call tm_log2 1
    proof {
        if n >= 1 { root_of_log2(RES, n); root_is((1u64 << RES) - 1, n as int); }
        else { assert(1u64 << 0u64 == 1) by(bit_vector); }
    }
//@end

//@go tree/transparency/math.Left
pub fn tm_Left(x: u64) -> (r: u64)
    requires x < u64::MAX, lvl(x as int) >= 1
    ensures r == left_of(x as int), r < x
//@hint after call tm_level 1
    proof { if RES >= 1 { left_bits(x, RES); } }
//@end

//@go tree/transparency/math.rightStep
pub fn tm_rightStep(x: u64) -> (r: u64)
    requires x < u64::MAX, lvl(x as int) >= 1
    ensures r == rstep_of(x as int), x < r < u64::MAX
//@hint after call tm_level 1
    proof { if RES >= 1 { rstep_bits(x, RES); } }
//@end

//@go tree/transparency/math.Right
pub fn tm_Right(x: u64, n: u64) -> (r: u64)
    requires okw(n), x + 1 < n, lvl(x as int) >= 1
    ensures is_right(r as int, x as int, n as int), r == right_of(x as int, n as int), x < r < n, lvl(r as int) < lvl(x as int)
//@hint entry
    proof { rstep_props(x as int); lvl_props(x as int); }
//@loop 1
    invariant r < u64::MAX, nl(r as int) == x + 1, lvl(r as int) < lvl(x as int), min2(nh(r as int), n as int) == min2(nh(x as int), n as int),
    decreases r
//@hint loop 1 top
    proof { lvl_props(r as int); assert(pw(0) == 1); left_props(r as int); }
//@hint return
    proof { right_is(ret as int, x as int, n as int); lvl_props(ret as int); }
//@end

//@go tree/transparency/math.parentStep
pub fn tm_parentStep(x: u64) -> (r: u64)
    requires x < u64::MAX, lvl(x as int) < 63
    ensures is_pstep(r as int, x as int), r < u64::MAX
//@hint after call tm_level 1
    proof { pstep_bits(x, RES, (x >> ((RES + 1) as u64)) & 1); }
//@end

//@go tree/transparency/math.Parent
pub fn tm_Parent(x: u64, n: u64) -> (r: u64)
    requires okw(n), x < n, x != root_of(n as int)
    ensures is_parent(r as int, x as int, n as int)
//@hint entry
    proof {
        lvl_bound(x); lvl_props(x as int); root_exists(n as int);
        if is_root(x as int, n as int) { root_is(x as int, n as int); }
        if lvl(x as int) == 63 { half_facts(x as int); pw64(); assert(false); }
    }
//@hint after call tm_parentStep 1
    proof { parent_up(x as int, RES as int, x as int, n as int); lvl_bound(RES); }
//@loop 1
    invariant p < u64::MAX, !is_root(x as int, n as int), p >= n ==> same_cut(p as int, x as int, n as int) && lvl(p as int) < 63, p < n ==> is_parent(p as int, x as int, n as int),
        lvl(p as int) <= 63,
    decreases 63 - lvl(p as int)
//@hint after call tm_parentStep 2
    proof { parent_up(p as int, RES as int, x as int, n as int); lvl_bound(RES); }
//@end

// ---- the right spine
// the spine continues at the right child, and there is nothing between
pub proof fn spine_next(x: int, y: int, n: int)
    requires spine(x, n), x + 1 < n
    ensures lvl(x) >= 1, is_right(right_of(x, n), x, n), spine(right_of(x, n), n), spine(y, n) && y > x ==> y >= right_of(x, n), right_of(x, n) > x
{
    lvl_props(x);
    if lvl(x) == 0 { assert(pw(0) == 1); }
    right_exists(x, n);
    let r = right_of(x, n);
    lvl_props(r);
    if spine(y, n) && y > x && y < r {
        lvl_props(y);
        assert(under(y, r));
        under_split(y, r); left_props(r);
        under_nested(y, left_of(r));
        assert(false);
    }
}
pub proof fn spine_first(y: int, n: int) requires spine(y, n) ensures is_root(root_of(n), n), y >= root_of(n)
{
    root_exists(n);
    let r = root_of(n);
    lvl_props(r); lvl_props(y);
    if y < r { under_split(y, r); left_props(r); under_nested(y, left_of(r)); }
}
pub proof fn spine_last(n: int) requires n >= 1 ensures spine(n - 1, n)
{ lvl_props(n - 1); }

//@go tree/transparency/math.Frontier
pub fn tm_Frontier(n: u64) -> (r: Slice<u64>)
    requires okw(n)
    ensures r@.len() >= 1, r@[0] == root_of(n as int), r@.last() == n - 1, increasing(r@), !r.nil@,
        forall|i: int| 0 <= i < r@.len() ==> spine(#[trigger] r@[i] as int, n as int),
        forall|y: u64| spine(y as int, n as int) ==> r@.contains(y),
        forall|i: int| 0 <= i < r@.len() - 1 ==> r@[i + 1] == right_of(#[trigger] r@[i] as int, n as int),
//@hint entry
    proof { spine_last(n as int); assert forall|y: u64| spine(y as int, n as int) implies y >= root_of(n as int) by { spine_first(y as int, n as int); } }
//@loop 1
    invariant okw(n), out@.len() >= 1, out@[0] == root_of(n as int), increasing(out@), !out.nil@,
        forall|i: int| 0 <= i < out@.len() ==> spine(#[trigger] out@[i] as int, n as int),
        forall|y: u64| spine(y as int, n as int) ==> y > out@.last() || out@.contains(y),
        forall|i: int| 0 <= i < out@.len() - 1 ==> out@[i + 1] == right_of(#[trigger] out@[i] as int, n as int),
    decreases n - out@.last()
//@hint loop 1 top
    let ghost o0 = out@;
    proof { assert(spine(out@.last() as int, n as int)); spine_next(out@.last() as int, 0, n as int); assert forall|y: u64| #![auto] spine(y as int, n as int) && y > out@.last() implies y >= right_of(out@.last() as int, n as int) by { spine_next(out@.last() as int, y as int, n as int); } }
//@hint loop 1 bottom
    proof {
        assert(out@.last() == right_of(o0.last() as int, n as int));
        assert(out@ == o0.push(out@.last()));
        assert forall|y: u64| spine(y as int, n as int) implies y > out@.last() || out@.contains(y) by {
            if y <= o0.last() { assert(o0.contains(y)); let k = choose|k: int| 0 <= k < o0.len() && o0[k] == y; assert(out@[k] == y); }
            else { if y == out@.last() { assert(out@[out@.len() - 1] == y); } }
        };
    }
//@end

//@go tree/transparency/math.LeftDirectPath
pub fn tm_LeftDirectPath(x: u64) -> (r: Slice<u64>)
    requires x < 0x8000_0000_0000_0000
    ensures decreasing(r@), !r.nil@,
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] < x && under(x as int, r@[i] as int),
        forall|z: u64| z < x && under(x as int, z as int) ==> r@.contains(z),
//@hint after call tm_Root 1
    proof { root_left_top(x as int, RES as int); lvl_bound(x); lvl_bound(RES); lvl_props(x as int); }
//@loop 1
    invariant x < 0x8000_0000_0000_0000, is_root(r as int, x + 1), y < u64::MAX, under(x as int, y as int), lvl(y as int) <= lvl(r as int), lvl(r as int) <= 63, under(x as int, r as int),
        decreasing(d@), !d.nil@,
        forall|i: int| 0 <= i < d@.len() ==> #[trigger] d@[i] < x && under(x as int, d@[i] as int) && lvl(d@[i] as int) <= lvl(y as int),
        forall|z: u64| #![auto] z < x && under(x as int, z as int) && lvl(z as int) <= lvl(y as int) ==> d@.contains(z),
    decreases 64 - lvl(y as int)
//@hint entry
    proof { lvl_props(x as int); assert forall|z: u64| z < x && under(x as int, z as int) implies lvl(z as int) > lvl(x as int) by { under_nested(x as int, z as int); } }
//@hint loop 1 top
    let ghost y0 = y; let ghost d0 = d@;
    proof { if lvl(y as int) == lvl(r as int) { laminar(y as int, r as int); } }
//@hint after call tm_parentStep 1
    proof { pstep_under(x as int, y0 as int, RES as int);
      assert forall|i: int| 0 <= i < d0.len() implies #[trigger] d0[i] > RES || RES >= x by { if RES < x { ldp_order(x as int, d0[i] as int, RES as int); } };
      assert forall|z: u64| z < x && under(x as int, z as int) && lvl(z as int) == lvl(RES as int) implies z == RES by { lvl_props(z as int); lvl_props(RES as int); laminar(z as int, RES as int); }
    }
//@hint loop 1 bottom
    proof { 
        assert forall|z: u64| #![auto] z < x && under(x as int, z as int) && lvl(z as int) <= lvl(y as int) implies d@.contains(z) by {
            if lvl(z as int) <= lvl(y0 as int) { assert(d0.contains(z)); let k = choose|k: int| 0 <= k < d0.len() && d0[k] == z; assert(d@[k] == z); }
            else { assert(z == y); assert(d@.last() == y); }
        };
    }
//@hint return
    proof { assert forall|z: u64| z < x && under(x as int, z as int) implies ret@.contains(z) by { 
        if lvl(z as int) > lvl(r as int) { above_left_top(x as int, r as int, z as int); } } }
//@end

pub proof fn root_left_top(x: int, r: int) requires 0 <= x, is_root(r, x + 1) ensures under(x, r), lvl(x) <= lvl(r)
{ lvl_props(r); under_nested(x, r); }
pub proof fn above_left_top(x: int, r: int, z: int) requires 0 <= z < x, is_root(r, x + 1), under(x, z), lvl(z) > lvl(r) ensures false
{ lvl_props(r); lvl_props(z); laminar(r, z); same_left_edge(r, z); }
pub proof fn pstep_under(x: int, y: int, p: int) requires x >= 0, y >= 0, under(x, y), is_pstep(p, y) ensures under(x, p), lvl(p) == lvl(y) + 1, x != p
{ lvl_props(y); lvl_props(p); left_props(p); rstep_props(p); under_nested(x, y); }
// two left ancestors of x: the higher one is further left
pub proof fn ldp_order(x: int, a: int, b: int) requires 0 <= a < x, 0 <= b < x, under(x, a), under(x, b), lvl(a) < lvl(b) ensures b < a
{
    lvl_props(a); lvl_props(b); laminar(a, b);
    if a < b { under_split(a, b); left_props(b); under_nested(a, left_of(b)); }
}

// z is an ancestor of x to its right, in the tree of n nodes
pub open spec fn ranc(z: int, x: int, n: int) -> bool { x < z < n && nl(z) <= x }
pub proof fn rdp_order(x: int, a: int, b: int, n: int) requires 0 <= x, ranc(a, x, n), ranc(b, x, n), lvl(a) < lvl(b) ensures a < b
{
    lvl_props(a); lvl_props(b); laminar(a, b);
    if a > b { under_split(a, b); rstep_props(b); under_nested(a, rstep_of(b)); }
}
// between y and its parent p there is no other ancestor of x
pub proof fn rdp_between(x: int, y: int, p: int, z: int, n: int)
    requires 0 <= x < n, is_parent(p, y, n), under(x, y), ranc(z, x, n), lvl(y) < lvl(z) <= lvl(p) ensures z == p
{
    lvl_props(y); lvl_props(p); lvl_props(z); left_props(p); rstep_props(p);
    laminar(y, z);
    if z != p {
        if y == left_of(p) { assert(lvl(z) == lvl(p)); laminar(z, p); assert(under(x, p)); assert(false); }
        else {
            assert(under(y, z));
            laminar(z, p);
            if lvl(z) == lvl(p) { assert(false); }
            under_split(z, p);
            if z < p { under_nested(z, left_of(p)); assert(false); }
            under_nested(z, rstep_of(p));
            assert(nl(z) == p + 1);
            same_left_edge(y, z);
            assert(false);
        }
    }
}
pub proof fn parent_under(x: int, y: int, p: int, n: int) requires 0 <= x < n, under(x, y), is_parent(p, y, n) ensures under(x, p), x != p, lvl(y) < lvl(p)
{ lvl_props(y); lvl_props(p); left_props(p); under_nested(x, y); }

//@go tree/transparency/math.RightDirectPath
pub fn tm_RightDirectPath(x: u64, n: u64) -> (r: Slice<u64>)
    requires okw(n), x < n
    ensures increasing(r@), !r.nil@,
        forall|i: int| 0 <= i < r@.len() ==> ranc(#[trigger] r@[i] as int, x as int, n as int),
        forall|z: u64| #[trigger] ranc(z as int, x as int, n as int) ==> r@.contains(z),
//@hint entry
    proof { lvl_props(x as int); lvl_bound(x); assert forall|z: u64| ranc(z as int, x as int, n as int) implies lvl(z as int) > lvl(x as int) by { lvl_props(z as int); under_nested(x as int, z as int); } }
//@loop 1
    invariant okw(n), x < n, y < n, r == root_of(n as int), is_root(r as int, n as int), under(x as int, y as int), lvl(y as int) <= 63,
        increasing(d@), !d.nil@,
        forall|i: int| 0 <= i < d@.len() ==> ranc(#[trigger] d@[i] as int, x as int, n as int) && lvl(d@[i] as int) <= lvl(y as int),
        forall|z: u64| #[trigger] ranc(z as int, x as int, n as int) && lvl(z as int) <= lvl(y as int) ==> d@.contains(z),
    decreases 64 - lvl(y as int)
//@hint loop 1 top
    let ghost y0 = y; let ghost d0 = d@;
//@hint after call tm_Parent 1
    proof { parent_under(x as int, y0 as int, RES as int, n as int); lvl_bound(RES);
        assert forall|i: int| 0 <= i < d0.len() && RES > x implies #[trigger] d0[i] < RES by { rdp_order(x as int, d0[i] as int, RES as int, n as int); };
    }
//@hint loop 1 bottom
    proof {
        assert forall|z: u64| #[trigger] ranc(z as int, x as int, n as int) && lvl(z as int) <= lvl(y as int) implies d@.contains(z) by {
            if lvl(z as int) <= lvl(y0 as int) { assert(d0.contains(z)); let k = choose|k: int| 0 <= k < d0.len() && d0[k] == z; assert(d@[k] == z); }
            else { rdp_between(x as int, y0 as int, y as int, z as int, n as int); assert(d@.last() == y); }
        };
    }
//@hint return
    proof { assert forall|z: u64| #[trigger] ranc(z as int, x as int, n as int) implies ret@.contains(z) by {
        if lvl(z as int) > lvl(r as int) { lvl_props(r as int); lvl_props(z as int); laminar(r as int, z as int); same_left_edge(r as int, z as int); } } }
//@end

// ---- view updates (C10)
// what an update from k to n entries must inspect: every new frontier entry
// that was not on the old frontier, and every ancestor of the old rightmost
// entry to its right.
pub open spec fn view_ok(r: Seq<u64>, k: int, n: int) -> bool {
    &&& increasing(r)
    &&& forall|i: int| 0 <= i < r.len() ==> k <= #[trigger] r[i] < n && (spine(r[i] as int, n) || ranc(r[i] as int, k - 1, n))
    &&& forall|y: u64| #[trigger] ranc(y as int, k - 1, n) ==> r.contains(y)
    &&& forall|y: u64| #[trigger] spine(y as int, n) ==> r.contains(y) || spine(y as int, k)
}
pub open spec fn front_ok(r: Seq<u64>, n: int) -> bool {
    &&& increasing(r) && r.len() >= 1 && r[0] == root_of(n) && r.last() == n - 1
    &&& forall|i: int| 0 <= i < r.len() ==> spine(#[trigger] r[i] as int, n)
    &&& forall|y: u64| #[trigger] spine(y as int, n) ==> r.contains(y)
}
// the topmost right ancestor of last (or last itself) is on the spine, and
// spine entries at or before last are on the old spine
pub proof fn top_spine(last: u64, x: u64, n: u64)
    requires okw(n), 0 <= x < n, last == x || ranc(last as int, x as int, n as int), forall|z: int| #[trigger] ranc(z, x as int, n as int) ==> z <= last
    ensures spine(last as int, n as int)
{
    lvl_props(last as int); lvl_props(x as int);
    if nh(last as int) < n {
        let q = nh(last as int);
        up_right(last, q);
        assert(ranc(q, x as int, n as int));
    }
}
// nh(x) is an ancestor of x to its right
pub proof fn up_right(x: u64, q: int) requires q == nh(x as int), q < u64::MAX ensures nl(q) <= nl(x as int), q > x
    decreases nl(x as int)
{
    lvl_props(x as int); lvl_bound(x); pw64();
    let k = lvl(x as int) as u64;
    if k >= 63 { pw_mono(63, k as nat); assert(false); }
    pstep_bits(x, k, (x >> ((k + 1) as u64)) & 1);
    let p = (x | (1u64 << k)) ^ (((x >> ((k + 1) as u64)) & 1) << ((k + 1) as u64));
    lvl_props(p as int); left_props(p as int); rstep_props(p as int);
    if x != left_of(p as int) { up_right(p, q); }
}
// a spine entry before the old size was on the old spine, one after it is
// an ancestor of the old rightmost entry or comes after the topmost one
pub proof fn spine_old(y: int, k: int, n: int) requires spine(y, n), 1 <= k <= n, y < k ensures spine(y, k) {}

//@go tree/transparency/math.UpdateView
pub fn tm_UpdateView(n: u64, m: Option<u64>) -> (r: Slice<u64>)
    requires okw(n), m.is_some() ==> m.unwrap() <= n
    ensures m.is_some() && m.unwrap() == n ==> r@.len() == 0,
        m.is_none() || m.unwrap() == 0 ==> front_ok(r@, n as int),
        m.is_some() && 1 <= m.unwrap() < n ==> view_ok(r@, m.unwrap() as int, n as int),
//@hint entry
    let ghost k = if m.is_some() { m.unwrap() as int } else { 0 };
    let ghost mut top = 0u64;
    proof { root_exists(n as int); spine_last(n as int); assert forall|y: u64| spine(y as int, n as int) implies y >= root_of(n as int) by { spine_first(y as int, n as int); } }
//@hint after call tm_RightDirectPath 1
    let ghost path0 = RES@;
    proof { if path0.len() > 0 { top = path0.last(); } else { top = last; }
        assert forall|z: int| #[trigger] ranc(z, last as int, n as int) implies z <= top by { let zz = z as u64; assert(ranc(zz as int, last as int, n as int)); assert(path0.contains(zz)); }
        top_spine(top, last, n);
    }
//@hint before loop 1
    let ghost out0 = out@; let ghost last0 = last;
    proof {
        assert(spine(last as int, n as int));
        assert(k >= 1 ==> top == last);
        assert forall|y: u64| spine(y as int, n as int) && y <= last implies out@.contains(y) || spine(y as int, k) by {
            if k >= 1 && y >= k { spine_ranc(y as int, last as int, k - 1, n as int); assert(y == last || ranc(y as int, k - 1, n as int)); }
            if k == 0 { assert(out@[0] == y); }
        };
    }
//@loop 1
    invariant okw(n), spine(last as int, n as int), last >= last0, k <= n, k == 0 ==> last0 == root_of(n as int) && out@.len() >= 1 && out@[0] == root_of(n as int) && out@.last() == last && out0.len() == 1, k >= 1 ==> last >= k - 1,
        increasing(out@), out@.len() > 0 ==> out@.last() == last, out@.len() == 0 ==> last == k - 1,
        forall|i: int| 0 <= i < out0.len() ==> i < out@.len() && #[trigger] out@[i] == out0[i],
        forall|i: int| out0.len() <= i < out@.len() ==> spine(#[trigger] out@[i] as int, n as int) && out@[i] >= k,
        forall|y: u64| #![auto] spine(y as int, n as int) && y <= last ==> out@.contains(y) || spine(y as int, k),
    decreases n - last
//@hint loop 1 top
    let ghost l0 = last; let ghost o0 = out@;
    proof { spine_next(last as int, 0, n as int); assert forall|y: u64| #![auto] spine(y as int, n as int) && y > last implies y >= right_of(last as int, n as int) by { spine_next(last as int, y as int, n as int); } }
//@hint loop 1 bottom
    proof {
        assert(out@ == o0.push(last));
        assert forall|y: u64| #![auto] spine(y as int, n as int) && y <= last implies out@.contains(y) || spine(y as int, k) by {
            if y <= l0 { if o0.contains(y) { let j = choose|j: int| 0 <= j < o0.len() && o0[j] == y; assert(out@[j] == y); } }
            else { assert(y == last); assert(out@[out@.len() - 1] == last); }
        };
    }
//@hint after loop 1
    proof {
        if k >= 1 { assert forall|y: u64| #[trigger] ranc(y as int, k - 1, n as int) implies out@.contains(y) by { assert(out0.contains(y)); let j = choose|j: int| 0 <= j < out0.len() && out0[j] == y; assert(out@[j] == y); } }
    }
//@end
// a spine entry y in [k, last] with last an ancestor of k-1 is one too
pub proof fn spine_ranc(y: int, last: int, x: int, n: int)
    requires spine(y, n), spine(last, n), 0 <= x < y <= last, ranc(last, x, n) ensures y == last || ranc(y, x, n)
{
    lvl_props(y); lvl_props(last);
    if y < last { assert(under(y, last)); under_split(y, last); left_props(last); under_nested(y, left_of(last)); }
}
