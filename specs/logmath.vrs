//@use bits.vrs
// ---- contracts of tree/log/math (C04)

pub open spec fn nwid(n: int) -> int { if n == 0 { 0 } else { 2 * n - 1 } }
pub open spec fn okn(n: u64) -> bool { 1 <= n <= 0x8000_0000_0000_0000 }

// the maximal complete subtrees below x in the tree of w nodes, left to right
pub open spec fn fsubs(x: int, w: int) -> Seq<u64> decreases lvl(x)
{
    if x < 0 || x >= w || nh(x) <= w { seq![x as u64] }
    else if lvl(right_of(x, w)) < lvl(x) { seq![left_of(x) as u64] + fsubs(right_of(x, w), w) }
    else { seq![x as u64] }
}

//@go tree/log/math.IsLeaf
pub fn lm_IsLeaf(x: u64) -> (r: bool)
    ensures r == (x % 2 == 0), r == (lvl(x as int) == 0)
//@hint entry
    assert((x & 1 == 0) == (x % 2 == 0)) by(bit_vector);
    proof { lvl_props(x as int); }
//@end

//@go tree/log/math.Level
pub fn lm_Level(x: u64) -> (r: u64)
    requires x < u64::MAX
    ensures r == lvl(x as int), r <= 63
//@hint entry
    proof { lvl_bound(x); lvl_props(x as int); assert(x >> 0u64 == x) by(bit_vector); }
//@loop 1
    invariant k <= lvl(x as int), lvl(x as int) <= 63, lvl(x as int) == k + lvl((x >> k) as int),
    decreases 64 - k
//@hint loop 1 top
    proof {
        let y = x >> k;
        assert(y & 1 == 1 ==> y % 2 == 1) by(bit_vector);
        lvl_props(y as int);
        if k < 63 { shr_step(x, k); }
    }
//@hint after loop 1
    proof {
        let y = x >> k;
        assert(y & 1 == 1 || y % 2 == 0) by(bit_vector);
        lvl_props(y as int);
    }
//@end

//@go tree/log/math.log2
pub fn lm_log2(x: u64) -> (r: u64)
    ensures x == 0 ==> r == 0, x >= 1 ==> is_log2(r as int, x as int)
//@loop 1
    invariant k <= 64, x >= 1, k >= 1 ==> x >= pw((k - 1) as nat),
    decreases 64 - k
//@hint loop 1 top
    proof { shr_pos(x, k); }
//@hint after loop 1
    proof { pw64(); if k < 64 { shr_pos(x, k); } pw_pos(0); }
//@end

//@go tree/log/math.nodeWidth
pub fn lm_nodeWidth(n: u64) -> (r: u64)
    requires n <= 0x8000_0000_0000_0000
    ensures r == nwid(n as int)
//@end

//@go tree/log/math.Root
pub fn lm_Root(n: u64) -> (r: u64)
    requires n <= 0x8000_0000_0000_0000
    ensures n >= 1 ==> is_root(r as int, 2 * n - 1) && r == root_of(2 * n - 1), n == 0 ==> r == 0, r < u64::MAX
//@hint after call lm_log2 1
    proof {
        if n >= 1 { root_of_log2(RES, (2 * n - 1) as u64); root_is((1u64 << RES) - 1, 2 * n - 1); }
        else { assert(1u64 << 0u64 == 1) by(bit_vector); }
    }
//@end

//@go tree/log/math.Left
pub fn lm_Left(x: u64) -> (r: u64)
    requires x < u64::MAX, lvl(x as int) >= 1
    ensures r == left_of(x as int), r < x
//@hint after call lm_Level 1
    proof { if RES >= 1 { left_bits(x, RES); } }
//@end

//@go tree/log/math.RightStep
pub fn lm_RightStep(x: u64) -> (r: u64)
    requires x < u64::MAX, lvl(x as int) >= 1
    ensures r == rstep_of(x as int), x < r < u64::MAX
//@hint after call lm_Level 1
    proof { if RES >= 1 { rstep_bits(x, RES); } }
//@end

//@go tree/log/math.Right
pub fn lm_Right(x: u64, n: u64) -> (r: u64)
    requires okn(n), x + 1 < 2 * n - 1, lvl(x as int) >= 1
    ensures is_right(r as int, x as int, 2 * n - 1), r == right_of(x as int, 2 * n - 1)
//@hint entry
    proof { rstep_props(x as int); lvl_props(x as int); }
//@loop 1
    invariant w == 2 * n - 1, x < r < u64::MAX, nl(r as int) == x + 1, lvl(r as int) < lvl(x as int), min2(nh(r as int), w as int) == min2(nh(x as int), w as int),
    decreases r
//@hint loop 1 top
    proof { lvl_props(r as int); assert(pw(0) == 1); left_props(r as int); }
//@hint return
    proof { right_is(ret as int, x as int, 2 * n - 1); }
//@end

//@go tree/log/math.ParentStep
pub fn lm_ParentStep(x: u64) -> (r: u64)
    requires x < u64::MAX, lvl(x as int) < 63
    ensures is_pstep(r as int, x as int), r < u64::MAX
//@hint after call lm_Level 1
    proof { pstep_bits(x, RES, (x >> ((RES + 1) as u64)) & 1); }
//@end

//@go tree/log/math.Parent
pub fn lm_Parent(x: u64, n: u64) -> (r: u64)
    requires okn(n), x < 2 * n - 1, x != root_of(2 * n - 1)
    ensures is_parent(r as int, x as int, 2 * n - 1)
//@hint entry
    proof {
        lvl_bound(x); lvl_props(x as int); root_exists(2 * n - 1);
        if is_root(x as int, 2 * n - 1) { root_is(x as int, 2 * n - 1); }
        if lvl(x as int) == 63 { half_facts(x as int); pw64(); assert(false); }
    }
//@hint after call lm_ParentStep 1
    proof { parent_up(x as int, RES as int, x as int, 2 * n - 1); lvl_bound(RES); }
//@loop 1
    invariant width == 2 * n - 1, p < u64::MAX, !is_root(x as int, 2 * n - 1), p >= width ==> same_cut(p as int, x as int, width as int) && lvl(p as int) < 63, p < width ==> is_parent(p as int, x as int, width as int),
        lvl(p as int) <= 63,
    decreases 63 - lvl(p as int)
//@hint after call lm_ParentStep 2
    proof { parent_up(p as int, RES as int, x as int, 2 * n - 1); lvl_bound(RES); }
//@end

//@go tree/log/math.IsFullSubtree
pub fn lm_IsFullSubtree(x: u64, n: u64) -> (r: bool)
    requires okn(n), x < u64::MAX
    ensures r == (nh(x as int) <= 2 * n - 1)
//@hint entry
    proof { lvl_bound(x); pw_shl(lvl(x as int) as u64); pw_pos(lvl(x as int)); lvl_props(x as int); }
//@end

//@go tree/log/math.FullSubtrees
pub fn lm_FullSubtrees(x: u64, n: u64) -> (r: Slice<u64>)
    requires okn(n), x < 2 * n - 1
    ensures r@ == fsubs(x as int, 2 * n - 1), !r.nil@
//@hint entry
    let ghost x0 = x;
//@loop 1
    invariant okn(n), x < 2 * n - 1, fsubs(x0 as int, 2 * n - 1) =~= out@ + fsubs(x as int, 2 * n - 1), !out.nil@,
    decreases lvl(x as int)
//@hint loop 1 top
    proof {
        lvl_props(x as int);
        if lvl(x as int) == 0 { assert(pw(0) == 1); }
        if nh(x as int) > 2 * n - 1 { left_props(x as int); right_exists(x as int, 2 * n - 1); }
    }
//@end

//@go tree/log/math.Chunk
pub fn lm_Chunk(x: u64) -> (r: u64)
    requires x < u64::MAX
    ensures lvl(r as int) % 4 == 3, under(x as int, r as int), lvl(r as int) <= lvl(x as int) + 3, lvl(r as int) >= lvl(x as int), r < u64::MAX
//@hint entry
    proof { lvl_props(x as int); lvl_bound(x); }
//@loop 1
    invariant c < u64::MAX, under(x as int, c as int), lvl(x as int) <= lvl(c as int) <= lvl(x as int) + 3, lvl(c as int) <= 63,
        lvl(c as int) > lvl(x as int) ==> lvl(c as int) % 4 != 0,
        lvl(c as int) % 4 == 3 || (lvl(c as int) % 4) - (lvl(x as int) % 4) == lvl(c as int) - lvl(x as int),
    decreases 64 - lvl(c as int)
//@hint after call lm_ParentStep 1
    proof { left_props(RES as int); rstep_props(RES as int); lvl_props(c as int); lvl_bound(RES); }
//@end

// ---- paths
// p has the two children c and s
pub open spec fn kids(p: int, c: int, s: int, w: int) -> bool {
    is_parent(p, c, w) && is_parent(p, s, w) && ((c == left_of(p) && is_right(s, p, w)) || (s == left_of(p) && is_right(c, p, w)))
}
pub open spec fn is_sib(s: int, x: int, w: int) -> bool { exists|p: int| kids(p, x, s, w) }
pub open spec fn step_of(x: int, d: Seq<u64>, i: int) -> int { if i == 0 { x } else { d[i - 1] as int } }
// d is the path from x's parent up to the root
pub open spec fn is_dpath(d: Seq<u64>, x: int, w: int) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> is_parent(#[trigger] d[i] as int, step_of(x, d, i), w)
    &&& step_of(x, d, d.len() as int) == root_of(w)
}
pub open spec fn is_copath(c: Seq<u64>, d: Seq<u64>, x: int, w: int) -> bool {
    c.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> kids(d[i] as int, step_of(x, d, i), #[trigger] c[i] as int, w)
}
pub open spec fn copath_of(c: Seq<u64>, x: int, w: int) -> bool { exists|d: Seq<u64>| is_dpath(d, x, w) && is_copath(c, d, x, w) }

//@go tree/log/math.Sibling
pub fn lm_Sibling(x: u64, n: u64) -> (r: u64)
    requires okn(n), x < 2 * n - 1, x != root_of(2 * n - 1)
    ensures is_sib(r as int, x as int, 2 * n - 1), r < 2 * n - 1
//@hint after call lm_Parent 1
    proof { lvl_props(RES as int); left_props(RES as int); right_exists(RES as int, 2 * n - 1); }
//@hint return
    proof { let w0 = 2 * n - 1; assert(kids(p as int, x as int, ret as int, w0)); }
//@end

//@go tree/log/math.DirectPath
pub fn lm_DirectPath(x: u64, n: u64) -> (r: Slice<u64>)
    requires okn(n), x < 2 * n - 1
    ensures is_dpath(r@, x as int, 2 * n - 1), !r.nil@
//@hint entry
    let ghost x0 = x;
    proof { lvl_bound(x); }
//@loop 1
    invariant x < 2 * n - 1, lvl(x as int) <= 63, !d.nil@,
        forall|i: int| 0 <= i < d@.len() ==> is_parent(#[trigger] d@[i] as int, step_of(x0 as int, d@, i), 2 * n - 1),
        x as int == step_of(x0 as int, d@, d@.len() as int), r == root_of(2 * n - 1),
    decreases 64 - lvl(x as int)
//@hint after call lm_Parent 1
    proof { lvl_bound(RES); }
//@end

//@go tree/log/math.Copath
//@attr #[verifier::spinoff_prover]
pub fn lm_Copath(x: u64, n: u64) -> (r: Slice<u64>)
    requires okn(n), x < 2 * n - 1
    ensures copath_of(r@, x as int, 2 * n - 1), !r.nil@
//@hint after call lm_DirectPath 1
    let ghost d0 = RES@;
    proof { assert(d0.len() > 0 ==> d0.last() as int == step_of(x as int, d0, d0.len() as int)); }
//@loop 1
    invariant 0 <= IDX <= d@.len(), d@.len() == d0.len(), is_dpath(d0, x as int, 2 * n - 1), !d.nil@,
        forall|j: int| IDX <= j < d@.len() ==> #[trigger] d@[j] == step_of(x as int, d0, j),
        forall|j: int| 0 <= j < IDX ==> kids(d0[j] as int, step_of(x as int, d0, j), #[trigger] d@[j] as int, 2 * n - 1),
    decreases d@.len() - IDX
//@hint loop 1 top
    proof {
        let y = step_of(x as int, d0, i as int);
        assert(is_parent(d0[i as int] as int, y, 2 * n - 1));
        parent_not_root(d0[i as int] as int, y, 2 * n - 1);
    }
//@hint after call lm_Sibling 1
    proof {
        let y = step_of(x as int, d0, i as int);
        let w0 = 2 * n - 1;
        let p = choose|p: int| kids(p, y, RES as int, w0);
        parent_unique(p, d0[i as int] as int, y, 2 * n - 1);
    }
//@hint return 1
    proof { let w0 = 2 * n - 1; let e = Seq::<u64>::empty(); assert(is_dpath(e, x as int, w0) && is_copath(ret@, e, x as int, w0)); }
//@hint return 2
    proof { let w0 = 2 * n - 1; assert(is_dpath(d0, x as int, w0) && is_copath(ret@, d0, x as int, w0)); }
//@end

pub proof fn parent_not_root(p: int, x: int, w: int) requires is_parent(p, x, w), 1 <= w ensures x != root_of(w)
{
    root_exists(w); lvl_props(p); lvl_props(x); left_props(p);
    if is_root(x, w) { if x < p { assert(nh(x) == p); } else { assert(nl(x) == p + 1); } }
}
pub proof fn parent_unique(p: int, q: int, x: int, w: int) requires is_parent(p, x, w), is_parent(q, x, w) ensures p == q
{
    lvl_props(p); lvl_props(q); lvl_props(x); left_props(p); left_props(q);
    if x < p && x < q { assert(nh(x) == p && nh(x) == q); }
    else if x > p && x > q { assert(nl(x) == p + 1 && nl(x) == q + 1); }
    else if x < p {
        // nh(x) == p, nl(x) == q + 1: q's right edge is at p or beyond w; p is beyond x under q
        par_lem(p, q, x, w);
    } else { par_lem(q, p, x, w); }
}
pub proof fn par_lem(p: int, q: int, x: int, w: int) requires is_parent(p, x, w), is_parent(q, x, w), x < p, x > q ensures false
{
    lvl_props(p); lvl_props(q); lvl_props(x); left_props(p);
    assert(nh(x) == p && p < w && nl(x) == q + 1 && nl(p) == nl(x));
    assert(min2(nh(x), w) == min2(nh(q), w));
    assert(nh(q) == p);
    assert(nh(q) % 2 == 1 && p % 2 == 1);
    // p is right after q's subtree, and starts at q + 1: q is outside p, p outside q
    laminar_any(p, q);
}
pub proof fn laminar_any(x: int, y: int) requires x >= 0, y >= 0
    ensures nh(x) <= nl(y) || nh(y) <= nl(x) || (nl(y) <= nl(x) && nh(x) <= nh(y)) || (nl(x) <= nl(y) && nh(y) <= nh(x))
{ if lvl(x) <= lvl(y) { laminar(x, y); } else { laminar(y, x); } }

// ---- batches
// every identifier of x's subtree within the first w nodes
pub open spec fn inx(y: int, x: int, w: int) -> bool { nl(x) <= y < nh(x) && y < w }
pub open spec fn none_in(s: Set<u64>, x: int, w: int) -> bool { forall|y: u64| s.contains(y) ==> !inx(y as int, x, w) }
pub open spec fn only_in(s: Set<u64>, x: int, w: int) -> bool { forall|y: u64| s.contains(y) && inx(y as int, x, w) ==> y == x }
// The copath of the known nodes s below x: the maximal complete subtrees that
// hold no known node, left to right, and the known nodes that the verifier
// needs because they belong to the additional tree (inc).
pub open spec fn bcop(x: int, w: int, s: Set<u64>, inc: Set<u64>) -> Seq<u64> decreases lvl(x)
{
    if none_in(s, x, w) { fsubs(x, w) }
    else if only_in(s, x, w) { if inc.contains(x as u64) { seq![x as u64] } else { Seq::empty() } }
    else if lvl(x) >= 1 && 0 <= x && x + 1 < w && lvl(right_of(x, w)) < lvl(x) && lvl(left_of(x)) < lvl(x) { bcop(left_of(x), w, s, inc) + bcop(right_of(x, w), w, s, inc) }
    else { Seq::empty() }
}
pub proof fn bcop_ext(x: int, w: int, s: Set<u64>, t: Set<u64>, inc: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, forall|y: u64| inx(y as int, x, w) ==> s.contains(y) == t.contains(y)
    ensures bcop(x, w, s, inc) == bcop(x, w, t, inc)
    decreases lvl(x)
{
    if none_in(s, x, w) { assert(none_in(t, x, w)); }
    else {
        assert(!none_in(t, x, w)) by { let y = choose|y: u64| s.contains(y) && inx(y as int, x, w); assert(t.contains(y)); };
        if only_in(s, x, w) { assert(only_in(t, x, w)); }
        else {
            let y = choose|y: u64| s.contains(y) && inx(y as int, x, w) && y != x;
            assert(t.contains(y));
            kids_cover(x, w);
            if lvl(x) >= 1 {
                bcop_ext(left_of(x), w, s, t, inc); bcop_ext(right_of(x, w), w, s, t, inc);
            }
        }
    }
}
// the subtrees of the two children partition the rest of x's subtree
pub proof fn kids_cover(x: int, w: int) requires 0 <= x < w, w % 2 == 1
    ensures lvl(x) == 0 ==> (forall|y: int| inx(y, x, w) ==> y == x),
        lvl(x) >= 1 ==> x + 1 < w && is_right(right_of(x, w), x, w) && lvl(right_of(x, w)) < lvl(x) && lvl(left_of(x)) < lvl(x) && 0 <= left_of(x) < x < right_of(x, w) < w
            && nh(left_of(x)) == x && nl(left_of(x)) == nl(x) && nl(right_of(x, w)) == x + 1 && min2(nh(right_of(x, w)), w) == min2(nh(x), w)
            && (forall|y: int| #[trigger] inx(y, left_of(x), w) <==> (inx(y, x, w) && y < x)) && (forall|y: int| #[trigger] inx(y, right_of(x, w), w) <==> (inx(y, x, w) && y > x)),
        inx(x, x, w)
{
    lvl_props(x);
    if lvl(x) == 0 { assert(pw(0) == 1); } else { left_props(x); right_exists(x, w); lvl_props(right_of(x, w)); }
}
pub open spec fn nodes_ok(s: Set<u64>, x: int, w: int) -> bool { forall|y: u64| #[trigger] s.contains(y) ==> inx(y as int, x, w) && nh(y as int) <= w }

pub proof fn batch_split(x: int, w: int, nodes: Seq<u64>, i: int, j: int, inc: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, lvl(x) >= 1, sorted_u64(nodes), nodes.no_duplicates(), nodes_ok(nodes.to_set(), x, w), 0 <= i <= j <= nodes.len(),
        forall|k: int| 0 <= k < i ==> nodes[k] < x, forall|k: int| j <= k < nodes.len() ==> nodes[k] > x, forall|k: int| i <= k < j ==> nodes[k] == x
    ensures ({ let a = nodes.subrange(0, i); let b = nodes.subrange(j, nodes.len() as int); let la = left_of(x); let ra = right_of(x, w);
        bcop(la, w, a.to_set(), inc) == bcop(la, w, nodes.to_set(), inc) && bcop(ra, w, b.to_set(), inc) == bcop(ra, w, nodes.to_set(), inc)
        && nodes_ok(a.to_set(), la, w) && nodes_ok(b.to_set(), ra, w) && sorted_u64(a) && sorted_u64(b) && a.no_duplicates() && b.no_duplicates() })
{
    kids_cover(x, w);
    let s = nodes.to_set();
    let a = nodes.subrange(0, i); let b = nodes.subrange(j, nodes.len() as int); let la = left_of(x); let ra = right_of(x, w);
    assert forall|y: u64| #[trigger] a.to_set().contains(y) implies inx(y as int, la, w) && nh(y as int) <= w && s.contains(y) by {
        let k = choose|k: int| 0 <= k < a.len() && a[k] == y; assert(nodes[k] == y); assert(s.contains(y)); assert(inx(y as int, x, w)); };
    assert forall|y: u64| #[trigger] b.to_set().contains(y) implies inx(y as int, ra, w) && nh(y as int) <= w && s.contains(y) by {
        let k = choose|k: int| 0 <= k < b.len() && b[k] == y; assert(nodes[k + j] == y); assert(s.contains(y)); assert(inx(y as int, x, w)); };
    assert forall|y: u64| inx(y as int, la, w) implies a.to_set().contains(y) == s.contains(y) by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < nodes.len() && nodes[k] == y; assert(y < x); assert(k < i); assert(a[k] == y); }
    };
    assert forall|y: u64| inx(y as int, ra, w) implies b.to_set().contains(y) == s.contains(y) by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < nodes.len() && nodes[k] == y; assert(y > x); assert(k >= j); assert(b[k - j] == y); }
    };
    bcop_ext(la, w, a.to_set(), s, inc);
    bcop_ext(ra, w, b.to_set(), s, inc);
}
pub proof fn batch_base(x: int, w: int, nodes: Seq<u64>)
    requires 0 <= x < w, w % 2 == 1, sorted_u64(nodes), nodes.no_duplicates(), nodes_ok(nodes.to_set(), x, w)
    ensures none_in(nodes.to_set(), x, w) == (nodes.len() == 0), nodes.len() > 0 ==> only_in(nodes.to_set(), x, w) == (nodes.len() == 1 && nodes[0] == x),
        nodes.len() > 0 && !(nodes.len() == 1 && nodes[0] == x) ==> lvl(x) >= 1
{
    let s = nodes.to_set();
    kids_cover(x, w);
    assert forall|i: int| 0 <= i < nodes.len() implies s.contains(#[trigger] nodes[i]) by {};
    if nodes.len() > 0 {
        assert(s.contains(nodes[0]));
        if nodes.len() == 1 { assert forall|y: u64| s.contains(y) implies y == nodes[0] by {}; }
        else { assert(s.contains(nodes[1])); assert(nodes[0] != nodes[1]); assert(inx(nodes[0] as int, x, w)); assert(inx(nodes[1] as int, x, w)); }
    }
}

//@go tree/log/math.batchCopath
pub fn lm_batchCopath(x: u64, n: u64, nodes: Slice<u64>, include: GoMap<u64, ()>) -> (r: Slice<u64>)
    requires okn(n), x < 2 * n - 1, sorted_u64(nodes@), nodes@.no_duplicates(), nodes_ok(nodes@.to_set(), x as int, 2 * n - 1)
    ensures r@ == bcop(x as int, 2 * n - 1, nodes@.to_set(), include@.dom())
    decreases lvl(x as int)
//@hint entry
    proof { batch_base(x as int, 2 * n - 1, nodes@); kids_cover(x as int, 2 * n - 1); }
//@hint before call lm_Left 1
    proof { if found { assert(forall|k: int| i < k < nodes@.len() ==> nodes@[k] != nodes@[i as int]); } batch_split(x as int, 2 * n - 1, nodes@, i as int, j as int, include@.dom()); }
//@end

// the complete subtrees of x are disjoint subtrees of the tree, inside x
pub proof fn fsubs_props(x: int, w: int) requires 0 <= x < w, w % 2 == 1, w <= u64::MAX
    ensures forall|i: int| 0 <= i < fsubs(x, w).len() ==> inx(#[trigger] fsubs(x, w)[i] as int, x, w) && nh(fsubs(x, w)[i] as int) <= w && nl(fsubs(x, w)[i] as int) >= nl(x),
        forall|i: int, j: int| 0 <= i < j < fsubs(x, w).len() ==> fsubs(x, w)[i] < fsubs(x, w)[j],
        fsubs(x, w).len() >= 1
    decreases lvl(x)
{
    kids_cover(x, w); lvl_props(x);
    if nh(x) > w {
        if lvl(x) == 0 { assert(pw(0) == 1); }
        left_props(x);
        fsubs_props(right_of(x, w), w);
        assert(nh(left_of(x)) <= w);
        lvl_props(left_of(x));
        assert(inx(left_of(x), x, w));
        let f = fsubs(right_of(x, w), w);
        assert(fsubs(x, w) =~= seq![left_of(x) as u64] + f);
        assert forall|i: int| 0 <= i < fsubs(x, w).len() implies inx(#[trigger] fsubs(x, w)[i] as int, x, w) && nh(fsubs(x, w)[i] as int) <= w && nl(fsubs(x, w)[i] as int) >= nl(x) by { if i > 0 { assert(fsubs(x, w)[i] == f[i - 1]); } };
        assert forall|i: int, j: int| 0 <= i < j < fsubs(x, w).len() implies fsubs(x, w)[i] < fsubs(x, w)[j] by { assert(fsubs(x, w)[j] == f[j - 1]); if i > 0 { assert(fsubs(x, w)[i] == f[i - 1]); } };
    }
}
// the full subtrees of the tree with n leaves
pub open spec fn froot(n: int) -> Seq<u64> { fsubs(root_of(2 * n - 1), 2 * n - 1) }
pub open spec fn opt_set(n: Option<u64>) -> Set<u64> { if n.is_some() { froot(n.unwrap() as int).to_set() } else { Set::empty() } }
pub open spec fn leaf_set(leaves: Seq<u64>) -> Set<u64> { leaves.map_values(|x: u64| (2 * x) as u64).to_set() }
pub open spec fn known(leaves: Seq<u64>, nP: Option<u64>, m: Option<u64>) -> Set<u64> { leaf_set(leaves).union(opt_set(nP)).union(opt_set(m)) }
pub proof fn froot_props(m: int, n: int) requires 1 <= m <= n <= 0x8000_0000_0000_0000
    ensures forall|y: u64| froot(m).to_set().contains(y) ==> inx(y as int, root_of(2 * n - 1), 2 * n - 1) && nh(y as int) <= 2 * n - 1
{
    root_exists(2 * m - 1); root_exists(2 * n - 1);
    fsubs_props(root_of(2 * m - 1), 2 * m - 1);
}

//@go tree/log/math.BatchCopath
pub fn lm_BatchCopath(leaves: Slice<u64>, n: u64, nP: Option<u64>, m: Option<u64>) -> (r: Slice<u64>)
    requires okn(n), forall|i: int| 0 <= i < leaves@.len() ==> leaves@[i] < n,
        nP.is_some() ==> 1 <= nP.unwrap() <= n, m.is_some() ==> 1 <= m.unwrap() <= n,
    ensures r@ == bcop(root_of(2 * n - 1), 2 * n - 1, known(leaves@, nP, m), opt_set(nP))
//@hint entry
    let ghost w = 2 * n - 1;
    let ghost rt = root_of(2 * n - 1);
    let ghost lf = leaves@.map_values(|x: u64| (2 * x) as u64);
    let ghost kn = known(leaves@, nP, m);
    let ghost mut pre_sort = Seq::<u64>::empty();
    proof { root_exists(w); lvl_props(rt); if nP.is_some() { root_exists(2 * nP.unwrap() - 1); froot_props(nP.unwrap() as int, n as int); } if m.is_some() { root_exists(2 * m.unwrap() - 1); froot_props(m.unwrap() as int, n as int); } }
//@loop 1
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == leaves@, !dedup.nil@, !include.nil@, include@.dom() =~= Set::<u64>::empty(),
        forall|y: u64| #[trigger] dedup@.dom().contains(y) <==> exists|k: int| 0 <= k < IDX && lf[k] == y,
    decreases SEQ@.len() - IDX
//@hint loop 1 bottom
    proof { assert(lf[IDX - 1] == 2 * x); }
//@hint after loop 1
    proof { assert(dedup@.dom() =~= leaf_set(leaves@)); assert(known(leaves@, None, None) =~= leaf_set(leaves@)); }
//@hint after call lm_FullSubtrees 1
    let ghost f1 = RES@;
    proof { assert(f1 == froot(nP.unwrap() as int)); }
//@loop 2
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == f1, !dedup.nil@, !include.nil@,
        forall|y: u64| #[trigger] include@.dom().contains(y) <==> exists|k: int| 0 <= k < IDX && f1[k] == y,
        forall|y: u64| #[trigger] dedup@.dom().contains(y) <==> (leaf_set(leaves@).contains(y) || exists|k: int| 0 <= k < IDX && f1[k] == y),
    decreases SEQ@.len() - IDX
//@hint after loop 2
    proof { assert(include@.dom() =~= f1.to_set()); assert(dedup@.dom() =~= known(leaves@, nP, None)); }
//@hint after call lm_FullSubtrees 2
    let ghost f2 = RES@;
    let ghost dd = dedup@.dom();
    proof { assert(f2 == froot(m.unwrap() as int)); assert(dd =~= known(leaves@, nP, None)); }
//@loop 3
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == f2, !dedup.nil@,
        forall|y: u64| #[trigger] dedup@.dom().contains(y) <==> (dd.contains(y) || exists|k: int| 0 <= k < IDX && f2[k] == y),
    decreases SEQ@.len() - IDX
//@hint after loop 3
    proof { assert(dedup@.dom() =~= known(leaves@, nP, m)); }
//@hint before loop 4
    proof {
        assert(dedup@.dom() =~= kn); assert(include@.dom() =~= opt_set(nP));
        assert forall|y: u64| #[trigger] kn.contains(y) implies inx(y as int, rt, w) && nh(y as int) <= w by {
            if leaf_set(leaves@).contains(y) { let k = choose|k: int| 0 <= k < lf.len() && lf[k] == y; assert(leaves@[k] < n); lvl_props(y as int); assert(pw(0) == 1); }
        };
    }
//@loop 4
    invariant 0 <= IDX <= SEQ@.len(), SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> kn.contains(#[trigger] SEQ@[i]),
        forall|k: u64| kn.contains(k) ==> exists|i: int| 0 <= i < SEQ@.len() && SEQ@[i] == k,
        nodes@ =~= SEQ@.subrange(0, IDX as int),
    decreases SEQ@.len() - IDX
//@hint after loop 4
    proof { pre_sort = nodes@; assert(pre_sort =~= SEQ4@); }
//@hint before call lm_batchCopath 1
    proof {
        assert(nodes@.to_set() =~= kn) by {
            assert forall|y: u64| nodes@.to_set().contains(y) == kn.contains(y) by {
                assert(nodes@.contains(y) <==> pre_sort.contains(y));
            };
        };
    }
//@end
