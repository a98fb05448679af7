//@use logmath.vrs hash.vrs
//@nonnil tree/log.nodeData tree/log.Verifier tree/log.nodeChunk tree/log.chunkSet tree/log.Tree
// ---- Merkle values
// what is hashed for a node: a type byte and its value
pub open spec fn enc(leaf: bool, v: Seq<u8>) -> Seq<u8> { seq![if leaf { 0u8 } else { 1u8 }] + v }
pub open spec fn encx(x: int, v: Seq<u8>) -> Seq<u8> { enc(x % 2 == 0, v) }
// An arbitrary log: the value of each leaf.
pub type Log = spec_fn(int) -> Seq<u8>;
// the Merkle value of a complete subtree of the log
pub open spec fn mv(cs: Suite, l: Log, x: int) -> Seq<u8> decreases lvl(x)
{
    if lvl(x) == 0 || lvl(left_of(x)) >= lvl(x) || lvl(rstep_of(x)) >= lvl(x) { l(x / 2) } else { sha(cs, mvin(cs, l, x)) }
}
pub open spec fn mvin(cs: Suite, l: Log, x: int) -> Seq<u8> decreases lvl(x), 0nat
    when lvl(left_of(x)) < lvl(x) && lvl(rstep_of(x)) < lvl(x)
{
    encx(left_of(x), mv(cs, l, left_of(x))) + encx(rstep_of(x), mv(cs, l, rstep_of(x)))
}
// l is a log under this hash, of as many leaves as there are in w nodes: its
// leaves are hash sized and the strings its operator hashed for the complete
// subtrees are among the used ones
pub open spec fn is_log(cs: Suite, l: Log, w: int) -> bool {
    (forall|i: int| (#[trigger] l(i)).len() == hsize(cs)) && forall|x: int| x >= 0 && lvl(x) >= 1 && nh(x) <= w ==> used(cs, #[trigger] mvin(cs, l, x))
}
pub proof fn mv_inner(cs: Suite, l: Log, x: int) requires x >= 0, lvl(x) >= 1
    ensures mv(cs, l, x) == sha(cs, mvin(cs, l, x)), mvin(cs, l, x) == encx(left_of(x), mv(cs, l, left_of(x))) + encx(rstep_of(x), mv(cs, l, rstep_of(x)))
{ left_props(x); rstep_props(x); }
pub proof fn mv_len(cs: Suite, l: Log, x: int, w: int) requires x >= 0, is_log(cs, l, w) ensures mv(cs, l, x).len() == hsize(cs)
{ if lvl(x) >= 1 { mv_inner(cs, l, x); } }
pub proof fn enc_inj(a: bool, u: Seq<u8>, b: bool, v: Seq<u8>, c: bool, w: Seq<u8>, d: bool, z: Seq<u8>)
    requires u.len() == w.len(), enc(a, u) + enc(b, v) == enc(c, w) + enc(d, z)
    ensures u == w, v == z, a == c, b == d
{
    let p = enc(a, u) + enc(b, v); let q = enc(c, w) + enc(d, z);
    assert(p[0] == q[0]);
    assert(p.len() == q.len());
    assert forall|i: int| 0 <= i < u.len() implies u[i] == w[i] by { assert(p[i + 1] == u[i]); assert(q[i + 1] == w[i]); };
    assert(u =~= w);
    let k = u.len() + 1;
    assert(p[k as int] == q[k as int]);
    assert forall|i: int| 0 <= i < v.len() implies v[i] == z[i] by { assert(p[k + 1 + i] == v[i]); assert(q[k + 1 + i] == z[i]); };
    assert(v =~= z);
}

//@go tree/log.nodeData.isEmpty
pub fn lg_isEmpty(nd: lg_nodeData) -> (r: bool) ensures r == (nd.value@.len() == 0)
//@end
//@go tree/log.nodeData.marshal
pub fn lg_marshal(nd: lg_nodeData) -> (r: Slice<u8>) requires 0 < nd.value@.len() <= 0xffff ensures r@ == enc(nd.leaf, nd.value@)
//@hint return
    proof { assert(ret@ =~= enc(nd.leaf, nd.value@)); }
//@end
//@go tree/log.treeHash
pub fn lg_treeHash(cs: Suite, left: lg_nodeData, right: lg_nodeData) -> (r: lg_nodeData)
    requires 0 < left.value@.len() <= 0xffff, 0 < right.value@.len() <= 0xffff
    ensures !r.leaf, !r.value.nil@, r.value@ == sha(cs, enc(left.leaf, left.value@) + enc(right.leaf, right.value@)), used(cs, enc(left.leaf, left.value@) + enc(right.leaf, right.value@))
//@hint return
    proof { assert(Seq::<u8>::empty() + enc(left.leaf, left.value@) =~= enc(left.leaf, left.value@)); assert(ret.value@ =~= sha(cs, enc(left.leaf, left.value@) + enc(right.leaf, right.value@))); }
//@end

// ---- the root of a list of complete subtrees
pub open spec fn fold_root(cs: Suite, xs: Seq<u64>, vs: Seq<Seq<u8>>, i: int) -> (bool, Seq<u8>) decreases xs.len() - i
{
    if i < 0 || i >= xs.len() - 1 { (xs.last() % 2 == 0, vs.last()) }
    else { let r = fold_root(cs, xs, vs, i + 1); (false, sha(cs, enc(xs[i] % 2 == 0, vs[i]) + enc(r.0, r.1))) }
}
pub open spec fn vals(v: Seq<Slice<u8>>) -> Seq<Seq<u8>> { v.map_values(|s: Slice<u8>| s@) }
// the values of the full subtrees of the first n leaves of l
pub open spec fn true_full(cs: Suite, l: Log, n: int) -> Seq<Seq<u8>> { froot(n).map_values(|x: u64| mv(cs, l, x as int)) }
pub open spec fn log_root(cs: Suite, l: Log, n: int) -> Seq<u8> { fold_root(cs, froot(n), true_full(cs, l, n), 0).1 }
// every string hashed to get from the values to the root is among the used ones
pub open spec fn fold_used(cs: Suite, xs: Seq<u64>, vs: Seq<Seq<u8>>, i: int) -> bool decreases xs.len() - i
{
    if i < 0 || i >= xs.len() - 1 { true }
    else { let r = fold_root(cs, xs, vs, i + 1); used(cs, enc(xs[i] % 2 == 0, vs[i]) + enc(r.0, r.1)) && fold_used(cs, xs, vs, i + 1) }
}
pub open spec fn sized(cs: Suite, v: Seq<Slice<u8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == hsize(cs) }

pub proof fn fold_len(cs: Suite, xs: Seq<u64>, vs: Seq<Seq<u8>>, i: int)
    requires xs.len() == vs.len(), 0 <= i < xs.len(), forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).len() == hsize(cs)
    ensures fold_root(cs, xs, vs, i).1.len() == hsize(cs) decreases xs.len() - i
{ if i < xs.len() - 1 { fold_len(cs, xs, vs, i + 1); } }
// the root determines the full subtree values
pub proof fn root_inj(cs: Suite, xs: Seq<u64>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, i: int)
    requires xs.len() == a.len(), xs.len() == b.len(), 0 <= i < xs.len(), fold_used(cs, xs, a, i), fold_used(cs, xs, b, i),
        forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).len() == hsize(cs), forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).len() == hsize(cs),
        fold_root(cs, xs, a, i).1 == fold_root(cs, xs, b, i).1
    ensures forall|k: int| i <= k < xs.len() ==> a[k] == b[k]
    decreases xs.len() - i
{
    if i < xs.len() - 1 {
        let ra = fold_root(cs, xs, a, i + 1); let rb = fold_root(cs, xs, b, i + 1);
        let l = xs[i] % 2 == 0;
        assert(a[i].len() == b[i].len());
        axiom_cr(cs, enc(l, a[i]) + enc(ra.0, ra.1), enc(l, b[i]) + enc(rb.0, rb.1));
        enc_inj(l, a[i], ra.0, ra.1, l, b[i], rb.0, rb.1);
        root_inj(cs, xs, a, b, i + 1);
    }
}

//@go tree/log.Root
pub fn lg_Root(cs: Suite, n: u64, fullSubtrees: Slice<Slice<u8>>) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() <==> okn(n) && fullSubtrees@.len() == froot(n as int).len() && sized(cs, fullSubtrees@),
        r.1.is_none() ==> r.0@ == fold_root(cs, froot(n as int), vals(fullSubtrees@), 0).1 && r.0@.len() == hsize(cs) && fold_used(cs, froot(n as int), vals(fullSubtrees@), 0),
//@hint entry
    proof { if okn(n) { root_exists(2 * n - 1); fsubs_props(root_of(2 * n - 1), 2 * n - 1); } }
//@loop 1
    invariant forall|k: int| 0 <= k < IDX ==> (#[trigger] fullSubtrees@[k])@.len() == hsize(cs),
//@hint before loop 2
    let ghost vs = vals(fullSubtrees@);
    let ghost xs = froot(n as int);
    proof { fold_len(cs, xs, vs, 0); }
//@loop 2
    invariant -1 <= i <= fullSubtrees@.len() - 2, subtrees@ == xs, fullSubtrees@.len() == xs.len(), sized(cs, fullSubtrees@),
        vs == vals(fullSubtrees@),
        acc.leaf == fold_root(cs, xs, vs, i + 1).0, acc.value@ == fold_root(cs, xs, vs, i + 1).1,
        acc.value@.len() == hsize(cs), fold_used(cs, xs, vs, i + 1),
    decreases i + 1
//@end
