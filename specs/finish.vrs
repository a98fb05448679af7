//@import view.vrs logverify.vrs leafonly.vrs
//@nonnil tree/transparency/algorithms.sortableLogLeaf
// ---- C11, C16: the end of a proof: the inspected leaves against the log tree
//@ext tree/transparency/algorithms.ProofHandle.GetPrefixTrees
pub fn h_GetPrefixTrees(h: &mut Handle, xs: Slice<u64>) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires !old(h).nil@
    ensures r.1.is_none() ==> said(*old(h), *final(h), Ev::Roots(xs@, vals(r.0@))), r.1.is_some() ==> silent(*old(h), *final(h))
//@end
//@ext tree/transparency/algorithms.ProofHandle.Finish
pub fn h_Finish(h: &mut Handle) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires !old(h).nil@
    ensures final(h).nil == old(h).nil
//@end
// b has the elements of a in another order
pub uninterp spec fn perm(a: Seq<al_sortableLogLeaf>, b: Seq<al_sortableLogLeaf>, i: int) -> int;
pub open spec fn permuted(a: Seq<al_sortableLogLeaf>, b: Seq<al_sortableLogLeaf>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] perm(a, b, i) < a.len() && b[i] == a[perm(a, b, i)]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] perm(a, b, i) != #[trigger] perm(a, b, j)
    &&& forall|k: int| #![trigger a[k]] 0 <= k < a.len() ==> exists|i: int| 0 <= i < b.len() && #[trigger] perm(a, b, i) == k && b[i] == a[k]
}
//@ext slices.SortFunc#sortLogLeaf
pub fn slices_SortFunc_leaf(v: &mut Slice<al_sortableLogLeaf>) ensures final(v).nil == old(v).nil, permuted(old(v)@, final(v)@)
//@end
pub open spec fn leaf_ok(dp: al_DataProvider, e: al_sortableLogLeaf) -> bool {
    dp.timestamps@.dom().contains(e.position) && !dp.logEntries@.dom().contains(e.position) && e.LogEntry.Timestamp == dp.timestamps@[e.position]
}
pub open spec fn distinct_pos(s: Seq<al_sortableLogLeaf>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].position != #[trigger] s[j].position }
pub open spec fn has_pos(s: Seq<al_sortableLogLeaf>, x: u64) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].position == x }
// every revealed entry that was not retained before is among the leaves, once
pub open spec fn inspected(dp: al_DataProvider, s: Seq<al_sortableLogLeaf>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> leaf_ok(dp, #[trigger] s[i])
    &&& distinct_pos(s)
    &&& forall|x: u64| #[trigger] dp.timestamps@.dom().contains(x) && !dp.logEntries@.dom().contains(x) ==> has_pos(s, x)
}
// a root that is known is the leaf's
pub open spec fn root_known(dp: al_DataProvider, e: al_sortableLogLeaf) -> bool { !e.LogEntry.PrefixTree.nil@ ==> dp.prefixTrees@.dom().contains(e.position) && dp.prefixTrees@[e.position] == e.LogEntry.PrefixTree }
pub open spec fn roots_known(dp: al_DataProvider, s: Seq<al_sortableLogLeaf>) -> bool { forall|i: int| 0 <= i < s.len() ==> root_known(dp, #[trigger] s[i]) }
pub open spec fn nils(s: Seq<al_sortableLogLeaf>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { 0 } else { nils(s, i + 1) + if s[i].LogEntry.PrefixTree.nil@ { 1int } else { 0 } } }
pub proof fn nils_pos(s: Seq<al_sortableLogLeaf>, i: int) ensures nils(s, i) >= 0, 0 <= i < s.len() && s[i].LogEntry.PrefixTree.nil@ ==> nils(s, i) >= 1 decreases s.len() - i { if 0 <= i < s.len() { nils_pos(s, i + 1); } }
pub proof fn nils_same(s: Seq<al_sortableLogLeaf>, t: Seq<al_sortableLogLeaf>, i: int) requires 0 <= i, s.len() == t.len(), forall|j: int| i <= j < s.len() ==> s[j] == t[j] ensures nils(s, i) == nils(t, i) decreases s.len() - i { if i < s.len() { nils_same(s, t, i + 1); } }
pub proof fn sorted_same(dp: al_DataProvider, a: Seq<al_sortableLogLeaf>, b: Seq<al_sortableLogLeaf>)
    requires inspected(dp, a), roots_known(dp, a), permuted(a, b) ensures inspected(dp, b), roots_known(dp, b)
{
    assert forall|i: int| 0 <= i < b.len() implies leaf_ok(dp, #[trigger] b[i]) && root_known(dp, b[i]) by { let j = perm(a, b, i); assert(leaf_ok(dp, a[j])); assert(root_known(dp, a[j])); }
    assert forall|x: u64| #[trigger] dp.timestamps@.dom().contains(x) && !dp.logEntries@.dom().contains(x) implies has_pos(b, x) by { assert(has_pos(a, x)); let k = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].position == x; let i = choose|i: int| 0 <= i < b.len() && #[trigger] perm(a, b, i) == k && b[i] == a[k]; assert(b[i].position == x); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i].position != #[trigger] b[j].position by { let p = perm(a, b, i); let q = perm(a, b, j); assert(p != q); if p < q { assert(a[p].position != a[q].position); } else { assert(a[q].position != a[p].position); } }
}
pub proof fn step_leaf(dp: al_DataProvider, sq: Seq<u64>, k: int, a: Seq<al_sortableLogLeaf>, b: Seq<al_sortableLogLeaf>)
    requires 0 <= k < sq.len(), sq.no_duplicates(), distinct_pos(a), b == a.push(b.last()), b.last().position == sq[k],
        forall|i: int| 0 <= i < a.len() ==> leaf_ok(dp, #[trigger] a[i]) && root_known(dp, a[i]) && sq.subrange(0, k).contains(a[i].position),
        leaf_ok(dp, b.last()), root_known(dp, b.last()),
        forall|j: int| 0 <= j < k && !dp.logEntries@.dom().contains(#[trigger] sq[j]) ==> has_pos(a, sq[j])
    ensures distinct_pos(b), forall|i: int| 0 <= i < b.len() ==> leaf_ok(dp, #[trigger] b[i]) && root_known(dp, b[i]) && sq.subrange(0, k + 1).contains(b[i].position),
        forall|j: int| 0 <= j < k + 1 && !dp.logEntries@.dom().contains(#[trigger] sq[j]) ==> has_pos(b, sq[j])
{
    let n = a.len() as int;
    assert(b[n].position == sq[k]);
    assert(sq.subrange(0, k + 1)[k] == sq[k]);
    assert forall|i: int| 0 <= i < b.len() implies leaf_ok(dp, #[trigger] b[i]) && root_known(dp, b[i]) && sq.subrange(0, k + 1).contains(b[i].position) by {
        if i < n { assert(b[i] == a[i]); let m = choose|m: int| 0 <= m < k && sq.subrange(0, k)[m] == a[i].position; assert(sq.subrange(0, k + 1)[m] == a[i].position); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i].position != #[trigger] b[j].position by {
        if j == n { assert(b[i] == a[i]); let m = choose|m: int| 0 <= m < k && sq.subrange(0, k)[m] == a[i].position; assert(sq[m] != sq[k]); } else { assert(a[i].position != a[j].position); } }
    assert forall|j: int| 0 <= j < k + 1 && !dp.logEntries@.dom().contains(#[trigger] sq[j]) implies has_pos(b, sq[j]) by {
        if j < k { let m = choose|m: int| 0 <= m < a.len() && #[trigger] a[m].position == sq[j]; assert(b[m].position == sq[j]); } }
}
pub proof fn put_root(p: al_DataProvider, q: al_DataProvider, a: Seq<al_sortableLogLeaf>, b: Seq<al_sortableLogLeaf>, i: int, v: Slice<u8>)
    requires 0 <= i < a.len(), inspected(p, a), roots_known(p, a), a[i].LogEntry.PrefixTree.nil@, q.timestamps == p.timestamps, q.logEntries == p.logEntries, q.prefixTrees@ == p.prefixTrees@.insert(a[i].position, v),
        b.len() == a.len(), forall|j: int| 0 <= j < a.len() && j != i ==> b[j] == a[j], b[i].position == a[i].position, b[i].LogEntry.Timestamp == a[i].LogEntry.Timestamp, b[i].LogEntry.PrefixTree == v,
        forall|j: int| 0 <= j < i ==> p.prefixTrees@.dom().contains(#[trigger] a[j].position) && p.prefixTrees@[a[j].position] == a[j].LogEntry.PrefixTree,
    ensures inspected(q, b), roots_known(q, b), forall|j: int| 0 <= j < i + 1 ==> q.prefixTrees@.dom().contains(#[trigger] b[j].position) && q.prefixTrees@[b[j].position] == b[j].LogEntry.PrefixTree
{
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j].position == a[j].position && leaf_ok(q, b[j]) by { assert(leaf_ok(p, a[j])); }
    assert forall|j: int, k: int| 0 <= j < k < b.len() implies #[trigger] b[j].position != #[trigger] b[k].position by { assert(a[j].position != a[k].position); }
    assert forall|x: u64| #[trigger] q.timestamps@.dom().contains(x) && !q.logEntries@.dom().contains(x) implies has_pos(b, x) by { assert(has_pos(a, x)); let m = choose|m: int| 0 <= m < a.len() && #[trigger] a[m].position == x; assert(b[m].position == x); }
    assert forall|j: int| 0 <= j < b.len() implies root_known(q, #[trigger] b[j]) by { if j != i { assert(root_known(p, a[j])); assert(a[j].position != a[i].position); } }
    assert forall|j: int| 0 <= j < i + 1 implies q.prefixTrees@.dom().contains(#[trigger] b[j].position) && q.prefixTrees@[b[j].position] == b[j].LogEntry.PrefixTree by { if j < i { assert(b[j] == a[j]); assert(a[j].position != a[i].position); assert(p.prefixTrees@.dom().contains(a[j].position)); } }
}
// the roots of retained entries stay
pub open spec fn roots_kept(a: al_DataProvider, b: al_DataProvider) -> bool { forall|x: u64| #[trigger] a.logEntries@.dom().contains(x) && a.prefixTrees@.dom().contains(x) ==> b.prefixTrees@.dom().contains(x) && b.prefixTrees@[x] == a.prefixTrees@[x] }
//@go tree/transparency/algorithms.DataProvider.inspectedLeaves
pub fn al_inspectedLeaves(dp_r: &mut al_DataProvider) -> (r: (Slice<al_sortableLogLeaf>, Option<GoErr>))
    requires wf(*old(dp_r)), !old(dp_r).handle.nil@
    ensures wf(*final(dp_r)), final(dp_r).cs == old(dp_r).cs, final(dp_r).fullSubtrees == old(dp_r).fullSubtrees, final(dp_r).logEntries == old(dp_r).logEntries, final(dp_r).timestamps == old(dp_r).timestamps, !final(dp_r).handle.nil@, roots_kept(*old(dp_r), *final(dp_r)),
        r.1.is_none() ==> inspected(*final(dp_r), r.0@) && forall|i: int| 0 <= i < r.0@.len() ==> final(dp_r).prefixTrees@.dom().contains(#[trigger] r.0@[i].position) && final(dp_r).prefixTrees@[r.0@[i].position] == r.0@[i].LogEntry.PrefixTree,
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost p0 = dp; let ghost mut l1 = Seq::<al_sortableLogLeaf>::empty(); let ghost mut l2 = Seq::<al_sortableLogLeaf>::empty();
//@loop 1
    invariant dp == p0, MAP == dp.timestamps, SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> dp.timestamps@.dom().contains(#[trigger] SEQ@[i]), forall|k: u64| dp.timestamps@.dom().contains(k) ==> #[trigger] SEQ@.contains(k),
        leaves@.len() <= IDX, forall|i: int| 0 <= i < leaves@.len() ==> leaf_ok(dp, #[trigger] leaves@[i]) && root_known(dp, leaves@[i]) && SEQ@.subrange(0, IDX as int).contains(leaves@[i].position),
        distinct_pos(leaves@), forall|k: int| 0 <= k < IDX && !dp.logEntries@.dom().contains(#[trigger] SEQ@[k]) ==> has_pos(leaves@, SEQ@[k]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost lv = leaves@; let ghost k1 = IDX1 - 1;
//@hint loop 1 bottom
    proof { step_leaf(dp, SEQ1@, k1, lv, leaves@); }
//@hint after loop 1
    proof { l1 = leaves@; assert(inspected(dp, l1)) by { assert forall|x: u64| #[trigger] dp.timestamps@.dom().contains(x) && !dp.logEntries@.dom().contains(x) implies has_pos(l1, x) by { assert(SEQ1@.contains(x)); let k = choose|k: int| 0 <= k < SEQ1@.len() && SEQ1@[k] == x; assert(SEQ1@[k] == x); } } }
//@hint after call slices_SortFunc_leaf 1
    proof { l2 = leaves@; sorted_same(dp, l1, l2); }
//@loop 2
    invariant SEQ@ == l2, empty@.len() + nils(l2, IDX as int) == nils(l2, 0), dp == p0, leaves@ == l2,
    decreases SEQ@.len() - IDX
//@loop 3
    invariant leaves@.len() == l2.len(), prefixTrees@.len() == nils(l2, IDX as int), inspected(dp, leaves@), forall|j: int| IDX <= j < l2.len() ==> #[trigger] leaves@[j] == l2[j],
        dp.timestamps == p0.timestamps, dp.logEntries == p0.logEntries, dp.cs == p0.cs, dp.fullSubtrees == p0.fullSubtrees, !dp.handle.nil@, !dp.prefixTrees.nil@,
        roots_known(dp, leaves@), roots_kept(p0, dp), forall|j: int| 0 <= j < IDX ==> dp.prefixTrees@.dom().contains(#[trigger] leaves@[j].position) && dp.prefixTrees@[leaves@[j].position] == leaves@[j].LogEntry.PrefixTree,
//@hint loop 3 top
    let ghost q0 = dp; let ghost v0 = leaves@; let ghost i0 = i as int; let ghost t0 = prefixTrees@;
    proof { nils_pos(l2, i0); nils_pos(l2, i0 + 1); assert(leaves@[i0] == l2[i0]); assert(leaf_ok(dp, leaves@[i0])); }
//@hint loop 3 bottom
    proof { if v0[i0].LogEntry.PrefixTree.nil@ { put_root(q0, dp, v0, leaves@, i0, t0[0]); } else { assert(root_known(dp, leaves@[i0])); } assert(inspected(dp, leaves@)); }
//@end
// the leaves' hashes, as they were given to the log verifier
pub open spec fn hashed(cs: Suite, s: Seq<al_sortableLogLeaf>, xs: Seq<u64>, vs: Seq<Slice<u8>>, k: int) -> bool {
    xs.len() == s.len() && vs.len() == s.len() && forall|i: int| 0 <= i < k ==> #[trigger] xs[i] == s[i].position && vs[i]@ == leaf_hash(cs, s[i].LogEntry.Timestamp, s[i].LogEntry.PrefixTree@)
}
// what was revealed of entry x (and not retained before) is what the log l has there
pub open spec fn entry_in(dp: al_DataProvider, l: Log, n: int, x: u64) -> bool { x < n && dp.prefixTrees@.dom().contains(x) && l(x as int) == leaf_hash(dp.cs, dp.timestamps@[x], dp.prefixTrees@[x]@) }
pub open spec fn revealed_in(dp: al_DataProvider, l: Log, n: int) -> bool { forall|x: u64| #[trigger] dp.timestamps@.dom().contains(x) && !dp.logEntries@.dom().contains(x) ==> entry_in(dp, l, n, x) }
// the entries that are retained for the next request
pub open spec fn retains(dp: al_DataProvider, n: int, m: Map<u64, st_LogEntry>) -> bool {
    &&& forall|x: u64| #[trigger] m.dom().contains(x) <==> spine(x as int, n)
    &&& forall|x: u64| #[trigger] m.dom().contains(x) ==> dp.timestamps@.dom().contains(x) && dp.prefixTrees@.dom().contains(x) && m[x].Timestamp == dp.timestamps@[x] && m[x].PrefixTree == dp.prefixTrees@[x]
}
pub proof fn leaves_to_revealed(dp: al_DataProvider, l: Log, n: u64, s: Seq<al_sortableLogLeaf>, xs: Seq<u64>, vs: Seq<Slice<u8>>)
    requires inspected(dp, s), hashed(dp.cs, s, xs, vs, s.len() as int), leaves_at(dp.cs, l, xs, vs), forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i] < n,
        forall|i: int| 0 <= i < s.len() ==> dp.prefixTrees@.dom().contains(#[trigger] s[i].position) && dp.prefixTrees@[s[i].position] == s[i].LogEntry.PrefixTree
    ensures revealed_in(dp, l, n as int)
{
    assert forall|x: u64| #[trigger] dp.timestamps@.dom().contains(x) && !dp.logEntries@.dom().contains(x) implies entry_in(dp, l, n as int, x) by {
        assert(has_pos(s, x)); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].position == x;
        assert(xs[i] == x); assert(leaf_ok(dp, s[i])); assert(vs[i]@ == mv(dp.cs, l, 2 * xs[i])); lvl_props(2 * x); assert((2 * x) / 2 == x as int);
    }
}
//@go tree/transparency/algorithms.DataProvider.Finish
pub fn al_Finish(dp_r: &mut al_DataProvider, n: u64, nP: Option<u64>, m: Option<u64>) -> (r: (al_ProofResult, Option<GoErr>))
    requires wf(*old(dp_r)), !old(dp_r).handle.nil@
    ensures wf(*final(dp_r)), final(dp_r).cs == old(dp_r).cs, final(dp_r).fullSubtrees == old(dp_r).fullSubtrees, final(dp_r).logEntries == old(dp_r).logEntries, final(dp_r).timestamps == old(dp_r).timestamps, !final(dp_r).handle.nil@, roots_kept(*old(dp_r), *final(dp_r)),
        r.1.is_none() ==> okn(n) && (nP.is_some() ==> 1 <= nP.unwrap() <= n) && (m.is_some() ==> 1 <= m.unwrap() <= n)
            && r.0.FullSubtrees@.len() == froot(n as int).len() && sized(old(dp_r).cs, r.0.FullSubtrees@) && r.0.Additional@.len() == opt_froot(nP).len() && sized(old(dp_r).cs, r.0.Additional@)
            && retains(*final(dp_r), n as int, r.0.LogEntries@),
        // every log with the resulting full subtrees has what was revealed, what was retained and the other tree head's subtrees
        r.1.is_none() ==> forall|l: Log| is_log(old(dp_r).cs, l, 2 * n - 1) && #[trigger] vals_at(old(dp_r).cs, l, froot(n as int), r.0.FullSubtrees@) ==>
            revealed_in(*final(dp_r), l, n as int) && vals_at(old(dp_r).cs, l, opt_froot(m), if m.is_some() { old(dp_r).fullSubtrees@ } else { Seq::empty() }) && vals_at(old(dp_r).cs, l, opt_froot(nP), r.0.Additional@),
//@attr #[verifier::spinoff_prover]
//@hint entry
    let ghost mut p1 = dp; let ghost mut io_end = dp; let ghost mut fr = Seq::<u64>::empty();
//@hint after call al_inspectedLeaves 1
    proof { p1 = dp; }
//@loop 1
    invariant dp == p1, SEQ == leaves, leaves@.len() == positions@.len(), hashed(dp.cs, leaves@, positions@, values@, IDX as int),
    decreases SEQ@.len() - IDX
//@hint after call lg_Evaluate 1
    proof { io_end = dp; if RES2.is_none() { assert forall|l: Log| is_log(dp.cs, l, 2 * n - 1) && #[trigger] vals_at(dp.cs, l, froot(n as int), RES0@) implies revealed_in(dp, l, n as int) by { leaves_to_revealed(dp, l, n, leaves@, positions@, values@); } } }
//@hint after call tm_Frontier 1
    proof { fr = RES@; }
//@loop 2
    invariant dp == io_end, SEQ@ == fr, !logEntries.nil@, forall|i: int| 0 <= i < fr.len() ==> spine(#[trigger] fr[i] as int, n as int),
        forall|x: u64| #[trigger] logEntries@.dom().contains(x) ==> spine(x as int, n as int) && dp.timestamps@.dom().contains(x) && dp.prefixTrees@.dom().contains(x) && logEntries@[x].Timestamp == dp.timestamps@[x] && logEntries@[x].PrefixTree == dp.prefixTrees@[x],
        forall|i: int| 0 <= i < IDX ==> logEntries@.dom().contains(#[trigger] fr[i]),
    decreases SEQ@.len() - IDX
//@hint loop 2 bottom
    proof { assert(spine(fr[IDX2 - 1] as int, n as int)); }
//@hint after loop 2
    proof { assert forall|x: u64| spine(x as int, n as int) implies #[trigger] logEntries@.dom().contains(x) by { assert(fr.contains(x)); let i = choose|i: int| 0 <= i < fr.len() && fr[i] == x; assert(logEntries@.dom().contains(fr[i])); } }
//@end
