//@import prefixmut.vrs
//@nonnil tree/prefix.proofBuilder tree/prefix.node tree/prefix.parentNode tree/prefix.PrefixProof tree/prefix.Entry
// ---- building the proof of a batch search in a loaded tree (C06)
pub open spec fn tall(t: T, w: int, d: int) -> bool decreases t { match t { T::P(l, r, _) => d < w && tall(*l, w, d + 1) && tall(*r, w, d + 1), _ => true } }
pub open spec fn has(t: T, k: Seq<u8>, d: int) -> Option<Seq<u8>> { match at(t, k, d) { T::L(k2, c) => if k2 == k { Some(c) } else { None }, _ => None } }
// searched keys, with their positions
pub open spec fn ikeys(s: Seq<px_indexedVrfOutput>) -> KS { |k: Seq<u8>| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vrfOutput@ == k }
pub open spec fn ilist(s: Seq<px_indexedVrfOutput>, n: int, d: int, size: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).vrfOutput@.len() == n && 0 <= s[i].index < size
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp((#[trigger] s[i]).vrfOutput@, (#[trigger] s[j]).vrfOutput@) <= 0 && s[i].index != s[j].index
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> agree((#[trigger] s[i]).vrfOutput@, (#[trigger] s[j]).vrfOutput@, d)
}
pub open spec fn reached(t: T, s: Seq<px_indexedVrfOutput>, d: int) -> bool { forall|i: int| 0 <= i < s.len() ==> !(at(t, (#[trigger] s[i]).vrfOutput@, d) is X) }
pub open spec fn mine(s: Seq<px_indexedVrfOutput>, q: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == q }
#[verifier::opaque]
pub open spec fn built(t: T, s: Seq<px_indexedVrfOutput>, d: int, res0: Seq<PSR>, com0: Seq<Slice<u8>>, res: Seq<PSR>, com: Seq<Slice<u8>>) -> bool {
    &&& res.len() == res0.len() && com.len() == com0.len()
    &&& forall|i: int| 0 <= i < s.len() ==> answer(t, (#[trigger] s[i]).vrfOutput@, d, res[s[i].index as int])
    &&& forall|i: int| 0 <= i < s.len() ==> match has(t, (#[trigger] s[i]).vrfOutput@, d) { Some(c) => com[s[i].index as int]@ == c, None => com[s[i].index as int] == com0[s[i].index as int] }
    &&& forall|q: int| 0 <= q < res.len() && !mine(s, q) ==> #[trigger] res[q] == res0[q]
    &&& forall|q: int| 0 <= q < com.len() && !mine(s, q) ==> #[trigger] com[q] == com0[q]
}
pub proof fn ilist_split(s: Seq<px_indexedVrfOutput>, n: int, d: int, size: int, m: int)
    requires ilist(s, n, d, size), 0 <= m <= s.len(), 0 <= d, forall|i: int| 0 <= i < m ==> !bit((#[trigger] s[i]).vrfOutput@, d), forall|i: int| m <= i < s.len() ==> bit((#[trigger] s[i]).vrfOutput@, d)
    ensures ilist(s.subrange(0, m), n, d + 1, size), ilist(s.subrange(m, s.len() as int), n, d + 1, size), ikeys(s.subrange(0, m)) == kside(ikeys(s), d, false), ikeys(s.subrange(m, s.len() as int)) == kside(ikeys(s), d, true)
{
    let a = s.subrange(0, m); let b = s.subrange(m, s.len() as int);
    assert forall|i: int| 0 <= i < b.len() implies b[i] == s[m + i] by {}
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies agree((#[trigger] a[i]).vrfOutput@, (#[trigger] a[j]).vrfOutput@, d + 1) by { assert(agree(s[i].vrfOutput@, s[j].vrfOutput@, d)); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies agree((#[trigger] b[i]).vrfOutput@, (#[trigger] b[j]).vrfOutput@, d + 1) by { assert(agree(s[m + i].vrfOutput@, s[m + j].vrfOutput@, d)); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies cmp((#[trigger] a[i]).vrfOutput@, (#[trigger] a[j]).vrfOutput@) <= 0 && a[i].index != a[j].index by { assert(cmp(s[i].vrfOutput@, s[j].vrfOutput@) <= 0); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies cmp((#[trigger] b[i]).vrfOutput@, (#[trigger] b[j]).vrfOutput@) <= 0 && b[i].index != b[j].index by { assert(cmp(s[m + i].vrfOutput@, s[m + j].vrfOutput@) <= 0); }
    assert forall|k: Seq<u8>| ikeys(a)(k) == #[trigger] kside(ikeys(s), d, false)(k) by {
        if ikeys(a)(k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).vrfOutput@ == k; assert(s[i].vrfOutput@ == k); }
        if ikeys(s)(k) && !bit(k, d) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vrfOutput@ == k; assert(a[i] == s[i]); }
    }
    assert(ikeys(a) =~= kside(ikeys(s), d, false));
    assert forall|k: Seq<u8>| ikeys(b)(k) == #[trigger] kside(ikeys(s), d, true)(k) by {
        if ikeys(b)(k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).vrfOutput@ == k; assert(s[m + i].vrfOutput@ == k); }
        if ikeys(s)(k) && bit(k, d) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vrfOutput@ == k; assert(b[i - m] == s[i]); }
    }
    assert(ikeys(b) =~= kside(ikeys(s), d, true));
}
pub proof fn built_none(t: T, s: Seq<px_indexedVrfOutput>, d: int, res: Seq<PSR>, com: Seq<Slice<u8>>) requires s.len() == 0 ensures built(t, s, d, res, com, res, com) { reveal(built); }
pub proof fn built_len(t: T, s: Seq<px_indexedVrfOutput>, d: int, res0: Seq<PSR>, com0: Seq<Slice<u8>>, res: Seq<PSR>, com: Seq<Slice<u8>>) requires built(t, s, d, res0, com0, res, com) ensures res.len() == res0.len(), com.len() == com0.len() { reveal(built); }
pub proof fn built_push(t: T, s: Seq<px_indexedVrfOutput>, n: int, d: int, i: int, res0: Seq<PSR>, com0: Seq<Slice<u8>>, res: Seq<PSR>, com: Seq<Slice<u8>>, res2: Seq<PSR>, com2: Seq<Slice<u8>>)
    requires ilist(s, n, d, res0.len() as int), res0.len() == com0.len(), 0 <= i < s.len(), built(t, s.take(i), d, res0, com0, res, com), res2.len() == res.len(), com2.len() == com.len(),
        forall|q: int| 0 <= q < res.len() && q != s[i].index ==> #[trigger] res2[q] == res[q], forall|q: int| 0 <= q < com.len() && q != s[i].index ==> #[trigger] com2[q] == com[q],
        answer(t, s[i].vrfOutput@, d, res2[s[i].index as int]), match has(t, s[i].vrfOutput@, d) { Some(c) => com2[s[i].index as int]@ == c, None => com2[s[i].index as int] == com[s[i].index as int] }
    ensures built(t, s.take(i + 1), d, res0, com0, res2, com2)
{
    reveal(built);
    let a = s.take(i); let b = s.take(i + 1); let x = s[i].index as int;
    assert forall|j: int| 0 <= j < b.len() implies b[j] == s[j] by {}
    assert forall|j: int| 0 <= j < i implies (#[trigger] a[j]) == s[j] && a[j].index != x by { assert(cmp(s[j].vrfOutput@, s[i].vrfOutput@) <= 0); }
    assert(!mine(a, x));
    assert forall|q: int| mine(a, q) implies mine(b, q) by { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).index == q; assert(b[j].index == q); }
    assert(b[i].index == x); assert(mine(b, x));
    assert forall|j: int| 0 <= j < b.len() implies answer(t, (#[trigger] b[j]).vrfOutput@, d, res2[b[j].index as int]) && match has(t, b[j].vrfOutput@, d) { Some(c) => com2[b[j].index as int]@ == c, None => com2[b[j].index as int] == com0[b[j].index as int] } by {
        if j < i { assert(a[j] == b[j]); } else { assert(com[x] == com0[x]); }
    }
    assert forall|q: int| 0 <= q < res2.len() && !mine(b, q) implies #[trigger] res2[q] == res0[q] by { assert(!mine(a, q)); assert(q != x); assert(res[q] == res0[q]); }
    assert forall|q: int| 0 <= q < com2.len() && !mine(b, q) implies #[trigger] com2[q] == com0[q] by { assert(!mine(a, q)); assert(q != x); assert(com[q] == com0[q]); }
}
pub proof fn built_join(l: T, r: T, f: bool, s: Seq<px_indexedVrfOutput>, n: int, d: int, m: int, res0: Seq<PSR>, com0: Seq<Slice<u8>>, res1: Seq<PSR>, com1: Seq<Slice<u8>>, res2: Seq<PSR>, com2: Seq<Slice<u8>>)
    requires ilist(s, n, d, res0.len() as int), res0.len() == com0.len(), 0 <= m <= s.len(), forall|i: int| 0 <= i < m ==> !bit((#[trigger] s[i]).vrfOutput@, d), forall|i: int| m <= i < s.len() ==> bit((#[trigger] s[i]).vrfOutput@, d),
        built(l, s.subrange(0, m), d + 1, res0, com0, res1, com1), built(r, s.subrange(m, s.len() as int), d + 1, res1, com1, res2, com2)
    ensures built(T::P(Box::new(l), Box::new(r), f), s, d, res0, com0, res2, com2)
{
    reveal(built);
    let t = T::P(Box::new(l), Box::new(r), f); let a = s.subrange(0, m); let b = s.subrange(m, s.len() as int);
    assert forall|i: int| 0 <= i < b.len() implies b[i] == s[m + i] by {}
    assert forall|i: int| 0 <= i < a.len() implies !mine(b, (#[trigger] a[i]).index as int) by { assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).index != a[i].index by { assert(cmp(s[i].vrfOutput@, s[m + j].vrfOutput@) <= 0 && s[i].index != s[m + j].index); } }
    assert forall|i: int| 0 <= i < b.len() implies !mine(a, (#[trigger] b[i]).index as int) by { assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).index != b[i].index by { assert(cmp(s[j].vrfOutput@, s[m + i].vrfOutput@) <= 0 && s[j].index != s[m + i].index); } }
    assert forall|i: int| 0 <= i < s.len() implies answer(t, (#[trigger] s[i]).vrfOutput@, d, res2[s[i].index as int]) && match has(t, s[i].vrfOutput@, d) { Some(c) => com2[s[i].index as int]@ == c, None => com2[s[i].index as int] == com0[s[i].index as int] } by {
        let k = s[i].vrfOutput@; let q = s[i].index as int;
        if i < m { assert(a[i] == s[i]); assert(!mine(b, q)); assert(res2[q] == res1[q]); assert(com2[q] == com1[q]); assert(at(t, k, d) == at(l, k, d + 1)); assert(dep(t, k, d) == dep(l, k, d + 1)); }
        else { assert(b[i - m] == s[i]); assert(!mine(a, q)); assert(com1[q] == com0[q]); assert(at(t, k, d) == at(r, k, d + 1)); assert(dep(t, k, d) == dep(r, k, d + 1)); }
    }
    assert forall|q: int| mine(a, q) || mine(b, q) implies mine(s, q) by { if mine(a, q) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).index == q; assert(s[j].index == q); } else { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).index == q; assert(s[m + j].index == q); } }
    assert forall|q: int| 0 <= q < res2.len() && !mine(s, q) implies #[trigger] res2[q] == res0[q] by { assert(!mine(a, q) && !mine(b, q)); assert(res1[q] == res0[q]); }
    assert forall|q: int| 0 <= q < com2.len() && !mine(s, q) implies #[trigger] com2[q] == com0[q] by { assert(!mine(a, q) && !mine(b, q)); assert(com1[q] == com0[q]); }
}
pub proof fn ikeys_none(s: Seq<px_indexedVrfOutput>) ensures s.len() == 0 ==> knone(ikeys(s)), s.len() > 0 ==> !knone(ikeys(s))
{ if s.len() > 0 { assert(s[0].vrfOutput@ == s[0].vrfOutput@); assert(ikeys(s)(s[0].vrfOutput@)); } }
//@emit tree/prefix.indexedVrfOutput tree/prefix.proofBuilder
//@go tree/prefix.proofBuilder.build@lit1
pub fn px_build_lit(depth: i64, out: px_indexedVrfOutput, u: bool) -> (r: i64) requires 0 <= depth < 8 * out.vrfOutput@.len() ensures r == (if bit(out.vrfOutput@, depth as int) { 0int } else { -1 })
//@end
//@ext slices.BinarySearchFunc[Slice<px_indexedVrfOutput>,px_indexedVrfOutput,bool]#tree/prefix.proofBuilder.build@lit1
pub fn bs_indexed(s: Slice<px_indexedVrfOutput>, target: bool, depth: i64) -> (r: (i64, bool))
    requires forall|i: int| 0 <= i < s@.len() ==> 0 <= depth < 8 * (#[trigger] s@[i]).vrfOutput@.len(), forall|i: int, j: int| 0 <= i < j < s@.len() && bit((#[trigger] s@[i]).vrfOutput@, depth as int) ==> bit((#[trigger] s@[j]).vrfOutput@, depth as int)
    ensures 0 <= r.0 <= s@.len(), forall|i: int| 0 <= i < r.0 ==> !bit((#[trigger] s@[i]).vrfOutput@, depth as int), forall|i: int| r.0 <= i < s@.len() ==> bit((#[trigger] s@[i]).vrfOutput@, depth as int)
//@end
//@go tree/prefix.proofBuilder.build
pub fn px_build(pb_r: &mut px_proofBuilder, n: Node, vrfOutputs: Slice<px_indexedVrfOutput>, depth: i64)
    requires sound(old(pb_r).cs, n), tall(tv(n), 8 * hsize(old(pb_r).cs), depth as int), 0 <= depth, depth + 8 * hsize(old(pb_r).cs) <= i64::MAX, ilist(vrfOutputs@, hsize(old(pb_r).cs), depth as int, old(pb_r).proof_.Results@.len() as int), old(pb_r).commitments@.len() == old(pb_r).proof_.Results@.len(), reached(tv(n), vrfOutputs@, depth as int)
    ensures final(pb_r).cs == old(pb_r).cs, built(tv(n), vrfOutputs@, depth as int, old(pb_r).proof_.Results@, old(pb_r).commitments@, final(pb_r).proof_.Results@, final(pb_r).commitments@),
        hv(final(pb_r).proof_.Elements@) == hv(old(pb_r).proof_.Elements@) + copath(old(pb_r).cs, tv(n), ikeys(vrfOutputs@), depth as int)
    decreases n
//@hint entry
    let ghost n0 = n; let ghost d = depth as int; let ghost res0 = pb.proof_.Results@; let ghost com0 = pb.commitments@; let ghost el0 = pb.proof_.Elements; let ghost c0 = pb.cs; let ghost ks = ikeys(vrfOutputs@);
    proof { reveal_with_fuel(tv, 2); reveal_with_fuel(sound, 2); reveal_with_fuel(tall, 2); ikeys_none(vrfOutputs@); reveal_with_fuel(copath, 2); reveal_with_fuel(at, 2); reveal_with_fuel(dep, 2);
        built_none(tv(n0), vrfOutputs@.take(0), d, res0, com0); if vrfOutputs@.len() > 0 { assert(!(at(tv(n0), vrfOutputs@[0].vrfOutput@, d) is X)); } }
//@loop 1
    invariant SEQ == vrfOutputs, pb.cs == c0, pb.proof_.Elements == el0, ilist(vrfOutputs@, hsize(c0), d, res0.len() as int), res0.len() == com0.len(), built(tv(n0), vrfOutputs@.take(IDX as int), d, res0, com0, pb.proof_.Results@, pb.commitments@), depth == d, n0 is Empty, tv(n0) == T::E,
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost r1_ = pb.proof_.Results@; let ghost c1_ = pb.commitments@; proof { built_len(tv(n0), vrfOutputs@.take(IDX - 1), d, res0, com0, r1_, c1_); }
//@hint loop 1 bottom
    proof { built_push(tv(n0), vrfOutputs@, hsize(c0), d, IDX - 1, res0, com0, r1_, c1_, pb.proof_.Results@, pb.commitments@); }
//@loop 2
    invariant SEQ == vrfOutputs, pb.cs == c0, pb.proof_.Elements == el0, ilist(vrfOutputs@, hsize(c0), d, res0.len() as int), res0.len() == com0.len(), built(tv(n0), vrfOutputs@.take(IDX as int), d, res0, com0, pb.proof_.Results@, pb.commitments@), depth == d, tv(n0) == T::L(n.vrfOutput@, n.commitment@),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost r1_ = pb.proof_.Results@; let ghost c1_ = pb.commitments@; proof { built_len(tv(n0), vrfOutputs@.take(IDX - 1), d, res0, com0, r1_, c1_); }
//@hint loop 2 bottom
    proof { built_push(tv(n0), vrfOutputs@, hsize(c0), d, IDX - 1, res0, com0, r1_, c1_, pb.proof_.Results@, pb.commitments@); }
//@hint before call bs_indexed 1
    let ghost l0 = tv(n.left); let ghost r0 = tv(n.right); let ghost f = n0->Parent_0.id.is_some();
    proof { assert(tv(n0) == T::P(Box::new(l0), Box::new(r0), f)); assert forall|i: int, j: int| 0 <= i < j < vrfOutputs@.len() && bit((#[trigger] vrfOutputs@[i]).vrfOutput@, depth as int) implies bit((#[trigger] vrfOutputs@[j]).vrfOutput@, depth as int) by { cmp_bit(vrfOutputs@[i].vrfOutput@, vrfOutputs@[j].vrfOutput@, hsize(c0), depth as int); } }
//@hint before call px_build 1
    proof { ilist_split(vrfOutputs@, hsize(c0), d, res0.len() as int, split as int);
        let a = vrfOutputs@.subrange(0, split as int); let b = vrfOutputs@.subrange(split as int, vrfOutputs@.len() as int);
        assert(reached(l0, a, d + 1)) by { assert forall|i: int| 0 <= i < a.len() implies !(at(l0, (#[trigger] a[i]).vrfOutput@, d + 1) is X) by { assert(a[i] == vrfOutputs@[i]); assert(!(at(tv(n0), vrfOutputs@[i].vrfOutput@, d) is X)); } }
        assert(reached(r0, b, d + 1)) by { assert forall|i: int| 0 <= i < b.len() implies !(at(r0, (#[trigger] b[i]).vrfOutput@, d + 1) is X) by { assert(b[i] == vrfOutputs@[split + i]); assert(!(at(tv(n0), vrfOutputs@[split + i].vrfOutput@, d) is X)); } } }
//@hint after call px_build 1
    let ghost res1 = pb.proof_.Results@; let ghost com1 = pb.commitments@; proof { built_len(l0, vrfOutputs@.subrange(0, split as int), d + 1, res0, com0, res1, com1); }
//@hint after call px_build 2
    proof { built_join(l0, r0, f, vrfOutputs@, hsize(c0), d, split as int, res0, com0, res1, com1, pb.proof_.Results@, pb.commitments@);
        assert((hv(el0@) + copath(c0, l0, kside(ks, d, false), d + 1)) + copath(c0, r0, kside(ks, d, true), d + 1) =~= hv(el0@) + copath(c0, tv(n0), ks, d)); }
//@hint return 1
    proof { assert(hv(pb.proof_.Elements@) =~= hv(el0@) + copath(c0, tv(n0), ks, d)); assert(vrfOutputs@.take(0) =~= vrfOutputs@); }
//@hint after loop 1
    proof { assert(vrfOutputs@.take(vrfOutputs@.len() as int) =~= vrfOutputs@); assert(hv(el0@) + copath(c0, tv(n0), ks, d) =~= hv(el0@)); }
//@hint after loop 2
    proof { assert(vrfOutputs@.take(vrfOutputs@.len() as int) =~= vrfOutputs@); assert(hv(el0@) + copath(c0, tv(n0), ks, d) =~= hv(el0@)); }
//@end
//@go tree/prefix.runProofBuilder@lit1
pub fn px_run_lit(a: px_indexedVrfOutput, b: px_indexedVrfOutput) -> (r: i64) ensures r == cmp(a.vrfOutput@, b.vrfOutput@)
//@end
//@ext slices.SortFunc[Slice<px_indexedVrfOutput>,px_indexedVrfOutput]#tree/prefix.runProofBuilder@lit1
pub fn sort_indexed(v: &mut Slice<px_indexedVrfOutput>) ensures final(v).nil == old(v).nil, final(v)@.len() == old(v)@.len(), exists|p: Seq<int>| #[trigger] perm(p, old(v)@.len() as int) && permuted(old(v)@, final(v)@, p), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> cmp((#[trigger] final(v)@[i]).vrfOutput@, (#[trigger] final(v)@[j]).vrfOutput@) <= 0
//@end
pub open spec fn bkeys(s: Seq<Slice<u8>>) -> KS { |k: Seq<u8>| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k }
// the answers to the searches of t for the given keys, and the proof of them
pub open spec fn answers(cs: Suite, t: T, keys: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>) -> bool {
    &&& p.Results@.len() == keys.len() && com.len() == keys.len() && hv(p.Elements@) == copath(cs, t, bkeys(keys), 0)
    &&& forall|i: int| 0 <= i < keys.len() ==> answer(t, (#[trigger] keys[i])@, 0, p.Results@[i])
    &&& forall|i: int| 0 <= i < keys.len() ==> match has(t, (#[trigger] keys[i])@, 0) { Some(c) => com[i]@ == c, None => com[i].nil@ }
}
//@go tree/prefix.runProofBuilder
pub fn px_runProofBuilder(cs: Suite, root: Node, vrfOutputs: Slice<Slice<u8>>) -> (r: (px_PrefixProof, Slice<Slice<u8>>))
    requires sound(cs, root), tall(tv(root), 8 * hsize(cs), 0), forall|i: int| 0 <= i < vrfOutputs@.len() ==> (#[trigger] vrfOutputs@[i])@.len() == hsize(cs) && !(at(tv(root), vrfOutputs@[i]@, 0) is X)
    ensures answers(cs, tv(root), vrfOutputs@, r.0, r.1@)
//@loop 1
    invariant SEQ == vrfOutputs, indexed@.len() == vrfOutputs@.len(), forall|q: int| 0 <= q < IDX ==> (#[trigger] indexed@[q]).index == q && indexed@[q].vrfOutput == vrfOutputs@[q],
    decreases SEQ@.len() - IDX
//@hint before call sort_indexed 1
    let ghost in0 = indexed@;
//@hint before call px_build 1
    let ghost p = choose|p: Seq<int>| #[trigger] perm(p, in0.len() as int) && permuted(in0, indexed@, p);
    let ghost n = in0.len() as int; let ghost r0 = pb.proof_.Results@; let ghost c0 = pb.commitments@;
    proof {
        assert forall|i: int| 0 <= i < n implies (#[trigger] indexed@[i]).index == p[i] && indexed@[i].vrfOutput == vrfOutputs@[p[i]] && 0 <= p[i] < n by { assert(indexed@[i] == in0[p[i]]); }
        assert forall|i: int| 0 <= i < indexed@.len() implies !(at(tv(root), (#[trigger] indexed@[i]).vrfOutput@, 0) is X) by { assert(indexed@[i].vrfOutput == vrfOutputs@[p[i]]); }
        assert(ilist(indexed@, hsize(cs), 0, n)) by {
            assert forall|i: int| 0 <= i < n implies (#[trigger] indexed@[i]).vrfOutput@.len() == hsize(cs) && 0 <= indexed@[i].index < n by { assert(vrfOutputs@[p[i]]@.len() == hsize(cs)); }
            assert forall|i: int, j: int| 0 <= i < j < n implies cmp((#[trigger] indexed@[i]).vrfOutput@, (#[trigger] indexed@[j]).vrfOutput@) <= 0 && indexed@[i].index != indexed@[j].index by { assert(p[i] != p[j]); }
        }
        assert(ikeys(indexed@) =~= bkeys(vrfOutputs@)) by { assert forall|k: Seq<u8>| ikeys(indexed@)(k) == #[trigger] bkeys(vrfOutputs@)(k) by {
            if ikeys(indexed@)(k) { let i = choose|i: int| 0 <= i < n && (#[trigger] indexed@[i]).vrfOutput@ == k; assert(vrfOutputs@[p[i]]@ == k); }
            if bkeys(vrfOutputs@)(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] vrfOutputs@[q])@ == k; assert(p.contains(q)); let i = choose|i: int| 0 <= i < n && p[i] == q; assert(indexed@[i].vrfOutput@ == k); }
        } }
    }
//@hint after call px_build 1
    proof {
        built_len(tv(root), indexed@, 0, r0, c0, pb.proof_.Results@, pb.commitments@); reveal(built);
        assert forall|q: int| 0 <= q < n implies answer(tv(root), (#[trigger] vrfOutputs@[q])@, 0, pb.proof_.Results@[q]) && match has(tv(root), vrfOutputs@[q]@, 0) { Some(c) => pb.commitments@[q]@ == c, None => pb.commitments@[q].nil@ } by {
            assert(p.contains(q)); let i = choose|i: int| 0 <= i < n && p[i] == q; assert(indexed@[i].index == q); assert(answer(tv(root), indexed@[i].vrfOutput@, 0, pb.proof_.Results@[indexed@[i].index as int]));
        }
        assert(hv(pb.proof_.Elements@) =~= copath(cs, tv(root), bkeys(vrfOutputs@), 0));
    }
//@end
// C06: Verify accepts what was built, for every batch of distinct keys, with
// the root hash of the tree it was built from
pub open spec fn asks(keys: Seq<Slice<u8>>, com: Seq<Slice<u8>>, es: Seq<px_Entry>) -> bool { es.len() == keys.len() && com.len() == keys.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).VrfOutput == keys[i] && es[i].Commitment == com[i] }
// the commitments in the leaves are full, as Mutate requires of what it adds
pub open spec fn committed(n: int, t: T) -> bool decreases t { match t { T::P(l, r, _) => committed(n, *l) && committed(n, *r), T::L(_, c) => c.len() == n, _ => true } }
pub proof fn sized_at(n: int, t: T, k: Seq<u8>, d: int) requires committed(n, t) ensures committed(n, at(t, k, d)) decreases t
{ match t { T::P(l, r, _) => { sized_at(n, if bit(k, d) { *r } else { *l }, k, d + 1); } _ => {} } }
pub proof fn prop_built_verifies(cs: Suite, t: T, keys: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>, es: Seq<px_Entry>)
    requires answers(cs, t, keys, p, com), asks(keys, com, es), placed(t, 0), committed(hsize(cs), t),
        forall|i: int| 0 <= i < keys.len() ==> (#[trigger] keys[i])@.len() == hsize(cs) && near(t, keys[i]@, 0),
        forall|i: int, j: int| 0 <= i < j < keys.len() ==> (#[trigger] keys[i])@ != (#[trigger] keys[j])@,
    ensures proves(cs, es, p, t)
{
    assert(keyset(es) =~= bkeys(keys)) by { assert forall|k: Seq<u8>| keyset(es)(k) == #[trigger] bkeys(keys)(k) by {
        if keyset(es)(k) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).VrfOutput@ == k; assert(keys[i]@ == k); }
        if bkeys(keys)(k) { let i = choose|i: int| 0 <= i < keys.len() && (#[trigger] keys[i])@ == k; assert(es[i].VrfOutput@ == k); }
    } }
    assert forall|i: int| 0 <= i < es.len() implies entry_ok(hsize(cs), #[trigger] es[i]) && tells(t, es[i], p.Results@[i], 0) by {
        let k = keys[i]@; assert(answer(t, k, 0, p.Results@[i])); sized_at(hsize(cs), t, k, 0);
        assert(match has(t, keys[i]@, 0) { Some(c) => com[i]@ == c, None => com[i].nil@ });
    }
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).VrfOutput@ != (#[trigger] es[j]).VrfOutput@ by { assert(keys[i]@ != keys[j]@); }
}
