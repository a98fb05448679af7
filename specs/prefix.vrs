//@use hash.vrs psr.vrs cmp.vrs
// ---- Prefix trees in memory (C05, C06, C07).
//@nonnil tree/prefix.node tree/prefix.parentNode tree/prefix.PrefixProof tree/prefix.Entry
//@sum tree/prefix.node Node tree/prefix.emptyNode tree/prefix.leafNode *tree/prefix.parentNode tree/prefix.externalNode
pub enum Node { Empty(px_emptyNode), Leaf(px_leafNode), Parent(&'static px_parentNode), Ext(px_externalNode), Nil }
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Node {}
pub fn zero_Node() -> (r: Node) ensures r == Node::Nil { Node::Nil }
#[verifier::external_body]
pub fn new_parent(p: px_parentNode) -> (r: &'static px_parentNode) ensures *r == p { Box::leak(Box::new(p)) }
pub fn of_px_emptyNode(v: px_emptyNode) -> (r: Node) ensures r == Node::Empty(v) { Node::Empty(v) }
pub fn of_px_leafNode(v: px_leafNode) -> (r: Node) ensures r == Node::Leaf(v) { Node::Leaf(v) }
pub fn of_px_parentNode(v: px_parentNode) -> (r: Node) ensures r == Node::Parent(&v) { Node::Parent(new_parent(v)) }
pub fn of_px_externalNode(v: px_externalNode) -> (r: Node) ensures r == Node::Ext(v) { Node::Ext(v) }
pub fn is_px_emptyNode(r: Node) -> (b: bool) ensures b == (r is Empty) { match r { Node::Empty(_) => true, _ => false } }
pub fn is_px_leafNode(r: Node) -> (b: bool) ensures b == (r is Leaf) { match r { Node::Leaf(_) => true, _ => false } }
pub fn is_px_parentNode(r: Node) -> (b: bool) ensures b == (r is Parent) { match r { Node::Parent(_) => true, _ => false } }
pub fn is_px_externalNode(r: Node) -> (b: bool) ensures b == (r is Ext) { match r { Node::Ext(_) => true, _ => false } }
pub fn as_px_emptyNode(r: Node) -> (v: px_emptyNode) requires r is Empty ensures r == Node::Empty(v) { match r { Node::Empty(v) => v, _ => unreached() } }
pub fn as_px_leafNode(r: Node) -> (v: px_leafNode) requires r is Leaf ensures r == Node::Leaf(v) { match r { Node::Leaf(v) => v, _ => unreached() } }
pub fn as_px_parentNode(r: Node) -> (v: px_parentNode) requires r is Parent ensures r == Node::Parent(&v) { match r { Node::Parent(v) => *v, _ => unreached() } }
pub fn as_px_externalNode(r: Node) -> (v: px_externalNode) requires r is Ext ensures r == Node::Ext(v) { match r { Node::Ext(v) => v, _ => unreached() } }
pub fn lookup_px_externalNode(r: Node) -> (v: px_externalNode) ensures r is Ext ==> r == Node::Ext(v) { match r { Node::Ext(v) => v, _ => px_externalNode { hash: Slice::nil(), id: px_tileId { ver: 0, ctr: 0 } } } }
pub fn lookup_px_parentNode(r: Node) -> (v: px_parentNode) ensures r is Parent ==> r == Node::Parent(&v) { match r { Node::Parent(v) => *v, _ => px_parentNode { left: Node::Nil, right: Node::Nil, hash: Slice::nil(), id: None } } }
pub fn lookup_px_nonInclusionLeafProof(r: PSR) -> (v: px_nonInclusionLeafProof) ensures r is Leaf ==> r == PSR::Leaf(v) { match r { PSR::Leaf(v) => v, _ => px_nonInclusionLeafProof { leaf: px_leafNode { vrfOutput: Slice::nil(), commitment: Slice::nil() }, depth: 0 } } }

// the tree a node stands for, without cached hashes; the flag of a parent says whether it came from a stored tile
//@emit tree/prefix.PrefixProof tree/prefix.emptyNode tree/prefix.leafNode tree/prefix.parentNode tree/prefix.externalNode tree/prefix.inclusionProof tree/prefix.nonInclusionLeafProof tree/prefix.nonInclusionParentProof
pub enum T { E, L(Seq<u8>, Seq<u8>), P(Box<T>, Box<T>, bool), X(Seq<u8>), Z }
pub open spec fn tv(n: Node) -> T decreases n
{ match n { Node::Empty(_) => T::E, Node::Leaf(l) => T::L(l.vrfOutput@, l.commitment@), Node::Parent(p) => T::P(Box::new(tv(p.left)), Box::new(tv(p.right)), p.id.is_some()), Node::Ext(e) => T::X(e.hash@), Node::Nil => T::Z } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn lin(k: Seq<u8>, c: Seq<u8>) -> Seq<u8> { seq![2u8] + k + c }
pub open spec fn pin(l: Seq<u8>, r: Seq<u8>) -> Seq<u8> { seq![3u8] + l + r }
pub open spec fn th(cs: Suite, t: T) -> Seq<u8> decreases t
{ match t { T::E => zeros(hsize(cs)), T::L(k, c) => sha(cs, lin(k, c)), T::P(l, r, _) => sha(cs, pin(th(cs, *l), th(cs, *r))), T::X(h) => h, T::Z => Seq::empty() } }
// every hash of the tree was computed
pub open spec fn hashed(cs: Suite, t: T) -> bool decreases t
{ match t { T::L(k, c) => used(cs, lin(k, c)), T::P(l, r, _) => used(cs, pin(th(cs, *l), th(cs, *r))) && hashed(cs, *l) && hashed(cs, *r), _ => true } }
// cached hashes are right, and there is no nil node
pub open spec fn sound(cs: Suite, n: Node) -> bool decreases n
{ match n { Node::Nil => false, Node::Parent(p) => sound(cs, p.left) && sound(cs, p.right) && (!p.hash.nil@ ==> p.hash@ == th(cs, tv(n)) && hashed(cs, tv(n))), _ => true } }

//@go tree/prefix.emptyNode.Hash
pub fn empty_Hash(en: px_emptyNode, cs: Suite) -> (r: Slice<u8>) ensures r@ == zeros(hsize(cs)), !r.nil@
//@hint return
    assert(ret@ =~= zeros(hsize(cs)));
//@end
//@go tree/prefix.leafNode.Hash
pub fn leaf_Hash(ln: px_leafNode, cs: Suite) -> (r: Slice<u8>) ensures r@ == sha(cs, lin(ln.vrfOutput@, ln.commitment@)), used(cs, lin(ln.vrfOutput@, ln.commitment@)), !r.nil@
//@hint return
    assert(h.acc@ =~= lin(ln.vrfOutput@, ln.commitment@)); assert(Seq::<u8>::empty() + sha(cs, h.acc@) =~= sha(cs, h.acc@));
//@end
//@go tree/prefix.externalNode.Hash
pub fn ext_Hash(en: px_externalNode, cs: Suite) -> (r: Slice<u8>) ensures r == en.hash
//@end
//@go tree/prefix.parentNode.Hash
pub fn parent_Hash(pn_r: &mut px_parentNode, cs: Suite) -> (r: Slice<u8>)
    requires sound(cs, Node::Parent(old(pn_r)))
    ensures sound(cs, Node::Parent(final(pn_r))), tv(Node::Parent(final(pn_r))) == tv(Node::Parent(old(pn_r))), final(pn_r).id == old(pn_r).id,
        r@ == th(cs, tv(Node::Parent(old(pn_r)))), hashed(cs, tv(Node::Parent(old(pn_r)))), !r.nil@
    decreases *old(pn_r)
//@hint entry
    let ghost p0 = pn; proof { reveal_with_fuel(sound, 2); reveal_with_fuel(tv, 2); reveal_with_fuel(hashed, 2); reveal_with_fuel(th, 2); }
//@hint return 2
    assert(h.acc@ =~= pin(th(cs, tv(p0.left)), th(cs, tv(p0.right)))); assert(Seq::<u8>::empty() + sha(cs, h.acc@) =~= sha(cs, h.acc@));
//@end

// ---- walking a tree along a key
pub open spec fn bit(k: Seq<u8>, d: int) -> bool { (k[d / 8] >> ((7 - d % 8) as u8)) & 1u8 == 1u8 }
pub open spec fn at(t: T, k: Seq<u8>, d: int) -> T decreases t
{ match t { T::P(l, r, _) => if bit(k, d) { at(*r, k, d + 1) } else { at(*l, k, d + 1) }, _ => t } }
pub open spec fn dep(t: T, k: Seq<u8>, d: int) -> int decreases t
{ match t { T::P(l, r, _) => if bit(k, d) { dep(*r, k, d + 1) } else { dep(*l, k, d + 1) }, _ => d } }
// a partial tree: no nil nodes, and no parents below what a proof can say
pub open spec fn skel(t: T, d: int) -> bool decreases t
{ match t { T::P(l, r, _) => d <= 254 && skel(*l, d + 1) && skel(*r, d + 1), T::Z => false, _ => true } }
// b says at least what a says: only unknown subtrees were replaced
pub open spec fn finer(a: T, b: T) -> bool decreases a
{ match a { T::X(_) => true, T::P(l, r, f) => match b { T::P(l2, r2, f2) => f == f2 && finer(*l, *l2) && finer(*r, *r2), _ => false }, _ => a == b } }
pub proof fn finer_refl(a: T) ensures finer(a, a) decreases a
{ match a { T::P(l, r, _) => { finer_refl(*l); finer_refl(*r); } _ => {} } }
pub proof fn finer_trans(a: T, b: T, c: T) requires finer(a, b), finer(b, c) ensures finer(a, c) decreases a
{ match a { T::P(l, r, f) => { match b { T::P(l2, r2, f2) => { match c { T::P(l3, r3, f3) => { finer_trans(*l, *l2, *l3); finer_trans(*r, *r2, *r3); } _ => {} } } _ => {} } } _ => {} } }
pub proof fn finer_at(a: T, b: T, k: Seq<u8>, d: int) requires finer(a, b), !(at(a, k, d) is X) ensures at(b, k, d) == at(a, k, d), dep(b, k, d) == dep(a, k, d) decreases a
{ match a { T::P(l, r, f) => { match b { T::P(l2, r2, f2) => { if bit(k, d) { finer_at(*r, *r2, k, d + 1); } else { finer_at(*l, *l2, k, d + 1); } } _ => {} } } _ => {} } }

//@go tree/prefix.getBit
pub fn px_getBit(data: Slice<u8>, bit_: i64) -> (r: bool) requires 0 <= bit_ < 8 * data@.len() ensures r == bit(data@, bit_ as int)
//@end
//@go tree/prefix.samePrefix
pub fn px_samePrefix(a: Slice<u8>, b: Slice<u8>, depth: i64) -> (r: bool) requires 0 <= depth <= 8 * a@.len(), depth <= 8 * b@.len()
    ensures r == forall|i: int| 0 <= i < depth ==> bit(a@, i) == bit(b@, i)
//@loop 1
    invariant 0 <= depth <= 8 * a@.len(), depth <= 8 * b@.len(), forall|i: int| 0 <= i < IDX ==> bit(a@, i) == bit(b@, i),
//@end

// ---- evaluating a proof
// the sizes of what a decoded proof carries, for keys of n bytes
pub open spec fn psr_ok(n: int, r: PSR) -> bool { !(r is Nil) && 0 <= psr_depth(r) <= 255 && match r { PSR::Leaf(v) => v.leaf.vrfOutput@.len() == n, _ => true } }
pub open spec fn proof_ok(n: int, p: px_PrefixProof) -> bool {
    &&& forall|i: int| 0 <= i < p.Results@.len() ==> psr_ok(n, #[trigger] p.Results@[i])
    &&& forall|i: int| 0 <= i < p.Elements@.len() ==> (#[trigger] p.Elements@[i])@.len() == n
}
// searching t for the entry ends as the result says
pub open spec fn matches(e: px_Entry, r: PSR, t: T, d: int) -> bool {
    &&& d == psr_depth(r)
    &&& psr_incl(r) ==> t == T::L(e.VrfOutput@, e.Commitment@)
    &&& !psr_incl(r) ==> t is E || (t is L && t->L_0 != e.VrfOutput@)
}
pub open spec fn shown(e: px_Entry, r: PSR, t: T, d: int) -> bool { matches(e, r, at(t, e.VrfOutput@, d), dep(t, e.VrfOutput@, d)) }
// leaves have a full key, and unknown subtrees a full hash (when want is set)
pub open spec fn sized(n: int, t: T, want: bool) -> bool decreases t
{ match t { T::P(l, r, _) => sized(n, *l, want) && sized(n, *r, want), T::L(k, _) => k.len() == n, T::X(h) => want ==> h.len() == n, T::Z => false, T::E => true } }
// nothing cached, nothing from a stored tile
pub open spec fn fresh(n: Node) -> bool decreases n
{ match n { Node::Parent(p) => p.hash.nil@ && p.id.is_none() && fresh(p.left) && fresh(p.right), _ => true } }
pub proof fn fresh_sound(cs: Suite, n: Node, d: int) requires fresh(n), skel(tv(n), d) ensures sound(cs, n) decreases n
{ match n { Node::Parent(p) => { fresh_sound(cs, p.left, d + 1); fresh_sound(cs, p.right, d + 1); } _ => {} } }

pub open spec fn no_nil(t: T) -> bool decreases t { match t { T::P(l, r, _) => no_nil(*l) && no_nil(*r), T::Z => false, _ => true } }
// b is a with its unknown subtrees given hashes
pub open spec fn filled(a: T, b: T) -> bool decreases a
{ match a { T::X(_) => b is X, T::P(l, r, f) => match b { T::P(l2, r2, f2) => f == f2 && filled(*l, *l2) && filled(*r, *r2), _ => false }, _ => a == b } }
pub proof fn filled_refl(a: T) ensures filled(a, a) decreases a
{ match a { T::P(l, r, _) => { filled_refl(*l); filled_refl(*r); } _ => {} } }
pub proof fn filled_finer(a: T, b: T) requires filled(a, b) ensures finer(a, b) decreases a
{ match a { T::P(l, r, _) => { match b { T::P(l2, r2, _) => { filled_finer(*l, *l2); filled_finer(*r, *r2); } _ => {} } } _ => {} } }
// the hashes of the unknown subtrees, from left to right
pub open spec fn xs(t: T) -> Seq<Seq<u8>> decreases t { match t { T::P(l, r, _) => xs(*l) + xs(*r), T::X(h) => seq![h], _ => Seq::empty() } }
pub open spec fn hv(s: Seq<Slice<u8>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn filled_shape(a: T, b: T, ks: KS, d: int) requires filled(a, b), placed(a, d), covered(a, ks, d) ensures placed(b, d), covered(b, ks, d) decreases a
{ match a { T::P(l, r, _) => { match b { T::P(l2, r2, _) => { filled_shape(*l, *l2, kside(ks, d, false), d + 1); filled_shape(*r, *r2, kside(ks, d, true), d + 1); filled_bits(*l, *l2, d, false); filled_bits(*r, *r2, d, true); } _ => {} } } _ => {} } }
pub proof fn filled_bits(a: T, b: T, d: int, v: bool) requires filled(a, b), bits_are(a, d, v) ensures bits_are(b, d, v) decreases a
{ match a { T::P(l, r, _) => { match b { T::P(l2, r2, _) => { filled_bits(*l, *l2, d, v); filled_bits(*r, *r2, d, v); } _ => {} } } _ => {} } }
pub proof fn skel_no_nil(t: T, d: int) requires skel(t, d) ensures no_nil(t) decreases t
{ match t { T::P(l, r, _) => { skel_no_nil(*l, d + 1); skel_no_nil(*r, d + 1); } _ => {} } }
pub proof fn filled_skel(a: T, b: T, d: int) requires filled(a, b), skel(a, d) ensures skel(b, d) decreases a
{ match a { T::P(l, r, _) => { match b { T::P(l2, r2, _) => { filled_skel(*l, *l2, d + 1); filled_skel(*r, *r2, d + 1); } _ => {} } } _ => {} } }
pub proof fn filled_sized(n: int, a: T, b: T) requires sized(n, a, false), filled(a, b), forall|i: int| 0 <= i < xs(b).len() ==> (#[trigger] xs(b)[i]).len() == n ensures sized(n, b, true) decreases a
{
    match a {
        T::P(l, r, _) => { match b { T::P(l2, r2, _) => {
            assert forall|i: int| 0 <= i < xs(*l2).len() implies (#[trigger] xs(*l2)[i]).len() == n by { assert(xs(b)[i] == xs(*l2)[i]); }
            assert forall|i: int| 0 <= i < xs(*r2).len() implies (#[trigger] xs(*r2)[i]).len() == n by { assert(xs(b)[xs(*l2).len() + i] == xs(*r2)[i]); }
            filled_sized(n, *l, *l2); filled_sized(n, *r, *r2);
        } _ => {} } }
        T::X(_) => { assert(xs(b)[0].len() == n); }
        _ => {}
    }
}

// the shape of what a proof says: every parent is on the path of a searched key, and leaves lie on their own path
pub type KS = spec_fn(Seq<u8>) -> bool;
pub open spec fn kside(r: KS, d: int, b: bool) -> KS { |k: Seq<u8>| r(k) && bit(k, d) == b }
pub open spec fn knone(r: KS) -> bool { forall|k: Seq<u8>| !(#[trigger] r(k)) }
pub open spec fn covered(t: T, ks: KS, d: int) -> bool decreases t
{ match t { T::P(l, r, f) => !f && !knone(ks) && covered(*l, kside(ks, d, false), d + 1) && covered(*r, kside(ks, d, true), d + 1), T::X(_) => true, _ => !knone(ks) } }
// what a search for k that ends in t at depth d is answered with
pub open spec fn answered(t: T, k: Seq<u8>, d: int, res: PSR) -> bool {
    match t {
        T::L(k2, c) => if k2 == k { res is Incl && psr_depth(res) == d } else { match res { PSR::Leaf(v) => v.leaf.vrfOutput@ == k2 && v.leaf.commitment@ == c && psr_depth(res) == d, _ => false } },
        T::E => res is Parent && psr_depth(res) == d,
        _ => false,
    }
}
pub open spec fn answer(t: T, k: Seq<u8>, d: int, res: PSR) -> bool { answered(at(t, k, d), k, dep(t, k, d), res) }
// every leaf of t agrees with k on the first d bits
pub open spec fn near(t: T, k: Seq<u8>, d: int) -> bool { forall|i: int| 0 <= i < d ==> #[trigger] bits_are(t, i, bit(k, i)) }
pub open spec fn agree(a: Seq<u8>, b: Seq<u8>, d: int) -> bool { forall|i: int| 0 <= i < d ==> bit(a, i) == bit(b, i) }
pub proof fn near_leaf(k2: Seq<u8>, c: Seq<u8>, k: Seq<u8>, d: int) requires near(T::L(k2, c), k, d) ensures agree(k, k2, d)
{ assert forall|i: int| 0 <= i < d implies bit(k, i) == bit(k2, i) by { assert(bits_are(T::L(k2, c), i, bit(k, i))); } }
pub proof fn near_side(l: T, r: T, f: bool, k: Seq<u8>, d: int) requires near(T::P(Box::new(l), Box::new(r), f), k, d), placed(T::P(Box::new(l), Box::new(r), f), d), 0 <= d
    ensures bit(k, d) ==> near(r, k, d + 1), !bit(k, d) ==> near(l, k, d + 1)
{
    let t = T::P(Box::new(l), Box::new(r), f);
    assert(bits_are(l, d, false)); assert(bits_are(r, d, true));
    if bit(k, d) { assert forall|i: int| 0 <= i < d + 1 implies #[trigger] bits_are(r, i, bit(k, i)) by { if i < d { assert(bits_are(t, i, bit(k, i))); } } }
    else { assert forall|i: int| 0 <= i < d + 1 implies #[trigger] bits_are(l, i, bit(k, i)) by { if i < d { assert(bits_are(t, i, bit(k, i))); } } }
}
// the result is the true one for a search for the entry in t
pub open spec fn tells(t: T, e: px_Entry, res: PSR, d: int) -> bool {
    answer(t, e.VrfOutput@, d, res) && near(t, e.VrfOutput@, d) && placed(t, d) && (psr_incl(res) ==> at(t, e.VrfOutput@, d) == T::L(e.VrfOutput@, e.Commitment@))
}
// s is t with some subtrees unknown
pub open spec fn part_of(s: T, t: T) -> bool decreases s
{ match s { T::X(_) => true, T::P(l, r, _) => match t { T::P(l2, r2, _) => part_of(*l, *l2) && part_of(*r, *r2), _ => false }, _ => s == t } }
pub proof fn tells_side(l: T, r: T, f: bool, e: px_Entry, res: PSR, d: int) requires tells(T::P(Box::new(l), Box::new(r), f), e, res, d), 0 <= d ensures tells(if bit(e.VrfOutput@, d) { r } else { l }, e, res, d + 1), dep(T::P(Box::new(l), Box::new(r), f), e.VrfOutput@, d) > d
{ near_side(l, r, f, e.VrfOutput@, d); dep_ge(if bit(e.VrfOutput@, d) { r } else { l }, e.VrfOutput@, d + 1); }
pub proof fn dep_ge(t: T, k: Seq<u8>, d: int) ensures dep(t, k, d) >= d decreases t { match t { T::P(l, r, _) => { dep_ge(if bit(k, d) { *r } else { *l }, k, d + 1); } _ => {} } }
pub open spec fn keyset(es: Seq<px_Entry>) -> KS { |k: Seq<u8>| exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).VrfOutput@ == k }
// t2 may have more leaves than t1 below depth d, but they are on the path of k
pub open spec fn grown(t1: T, t2: T, k: Seq<u8>, d: int) -> bool {
    &&& placed(t1, d) ==> placed(t2, d)
    &&& forall|ks: KS| ks(k) && #[trigger] covered(t1, ks, d) ==> covered(t2, ks, d)
    &&& forall|i: int| 0 <= i < d && #[trigger] bits_are(t1, i, bit(k, i)) ==> bits_are(t2, i, bit(k, i))
}
pub proof fn grown_bit(t1: T, t2: T, k: Seq<u8>, d: int, i: int) requires grown(t1, t2, k, d), 0 <= i < d, bits_are(t1, i, bit(k, i)) ensures bits_are(t2, i, bit(k, i)) {}
pub proof fn grown_side(l1: T, r1: T, l2: T, r2: T, k: Seq<u8>, d: int)
    requires 0 <= d, bit(k, d) ==> l1 == l2 && grown(r1, r2, k, d + 1), !bit(k, d) ==> r1 == r2 && grown(l1, l2, k, d + 1)
    ensures grown(T::P(Box::new(l1), Box::new(r1), false), T::P(Box::new(l2), Box::new(r2), false), k, d)
{
    let t1 = T::P(Box::new(l1), Box::new(r1), false); let t2 = T::P(Box::new(l2), Box::new(r2), false); let b = bit(k, d);
    assert forall|ks: KS| ks(k) && #[trigger] covered(t1, ks, d) implies covered(t2, ks, d) by { assert(kside(ks, d, b)(k)); assert(covered(l1, kside(ks, d, false), d + 1)); assert(covered(r1, kside(ks, d, true), d + 1)); }
    assert forall|i: int| 0 <= i < d && #[trigger] bits_are(t1, i, bit(k, i)) implies bits_are(t2, i, bit(k, i)) by { assert(bits_are(l1, i, bit(k, i))); assert(bits_are(r1, i, bit(k, i))); }
    if placed(t1, d) { if b { assert(bits_are(r1, d, bit(k, d))); grown_bit(r1, r2, k, d + 1, d); } else { assert(bits_are(l1, d, bit(k, d))); grown_bit(l1, l2, k, d + 1, d); } }
}
pub proof fn grown_x(h: Seq<u8>, h1: Seq<u8>, h2: Seq<u8>, t2: T, k: Seq<u8>, d: int)
    requires grown(T::P(Box::new(T::X(h1)), Box::new(T::X(h2)), false), t2, k, d) ensures grown(T::X(h), t2, k, d)
{
    let t1 = T::P(Box::new(T::X(h1)), Box::new(T::X(h2)), false); reveal_with_fuel(placed, 3); reveal_with_fuel(covered, 3); reveal_with_fuel(bits_are, 3);
    assert forall|ks: KS| ks(k) && #[trigger] covered(T::X(h), ks, d) implies covered(t2, ks, d) by { assert(covered(t1, ks, d)); }
    assert forall|i: int| 0 <= i < d && #[trigger] bits_are(T::X(h), i, bit(k, i)) implies bits_are(t2, i, bit(k, i)) by { assert(bits_are(t1, i, bit(k, i))); }
}

//@go tree/prefix.terminalNode
pub fn px_terminalNode(entry: px_Entry, res: PSR) -> (r: Node) requires !(res is Nil)
    ensures tv(r) == match res { PSR::Incl(_) => T::L(entry.VrfOutput@, entry.Commitment@), PSR::Leaf(v) => T::L(v.leaf.vrfOutput@, v.leaf.commitment@), _ => T::E }, !(r is Parent), !(r is Ext), !(r is Nil)
//@end
//@go tree/prefix.addToSkeleton@loop
pub fn px_addToSkeleton_loop(n_r: &mut Node, entry: px_Entry, res: PSR, depth: i64) -> (r: Option<GoErr>)
    requires 0 <= depth <= 255, entry.VrfOutput@.len() >= 32, psr_ok(entry.VrfOutput@.len() as int, res), skel(tv(*old(n_r)), depth as int), fresh(*old(n_r)), sized(entry.VrfOutput@.len() as int, tv(*old(n_r)), false)
    ensures fresh(*final(n_r)), skel(tv(*final(n_r)), depth as int), sized(entry.VrfOutput@.len() as int, tv(*final(n_r)), false), finer(tv(*old(n_r)), tv(*final(n_r))),
        forall|t: T| #[trigger] tells(t, entry, res, depth as int) && part_of(tv(*old(n_r)), t) ==> r.is_none() && part_of(tv(*final(n_r)), t),
        r.is_none() ==> shown(entry, res, tv(*final(n_r)), depth as int), r.is_none() ==> grown(tv(*old(n_r)), tv(*final(n_r)), entry.VrfOutput@, depth as int)
    decreases 255 - depth, (if *old(n_r) is Ext { 1int } else { 0int })
//@hint entry
    let ghost n0 = n; let ghost depth0 = depth as int; let ghost entry0 = entry;
    proof { finer_refl(tv(n)); reveal_with_fuel(part_of, 3); reveal_with_fuel(at, 2); reveal_with_fuel(dep, 2); reveal_with_fuel(skel, 2); reveal_with_fuel(tv, 2); reveal_with_fuel(sized, 2); reveal_with_fuel(fresh, 2); }
//@hint return
    proof {
        assert forall|t: T| #[trigger] tells(t, entry0, res, depth0) && part_of(tv(n0), t) implies ret.is_none() && part_of(tv(n), t) by {
            dep_ge(t, entry0.VrfOutput@, depth0);
            match t {
                T::P(l, r, f) => { tells_side(*l, *r, f, entry0, res, depth0); }
                T::L(k2, c) => { near_leaf(k2, c, entry0.VrfOutput@, depth0); }
                _ => {}
            }
        }
        if ret.is_none() { match n0 {
            Node::Parent(p) => { match n { Node::Parent(q) => { grown_side(tv(p.left), tv(p.right), tv(q.left), tv(q.right), entry.VrfOutput@, depth0); } _ => {} } }
            Node::Ext(e) => { if n is Parent { grown_x(tv(n0)->X_0, Seq::empty(), Seq::empty(), tv(n), entry.VrfOutput@, depth0); } else { match n { Node::Leaf(l) => { assert forall|i: int| 0 <= i < depth0 implies bit(l.vrfOutput@, i) == #[trigger] bit(entry.VrfOutput@, i) by {} } _ => {} } } }
            _ => {}
        } }
    }
//@end
//@go tree/prefix.addToSkeleton
pub fn px_addToSkeleton(n_r: &mut Node, entry: px_Entry, res: PSR) -> (r: Option<GoErr>)
    requires entry.VrfOutput@.len() >= 32, psr_ok(entry.VrfOutput@.len() as int, res), skel(tv(*old(n_r)), 0), fresh(*old(n_r)), sized(entry.VrfOutput@.len() as int, tv(*old(n_r)), false)
    ensures fresh(*final(n_r)), skel(tv(*final(n_r)), 0), sized(entry.VrfOutput@.len() as int, tv(*final(n_r)), false), finer(tv(*old(n_r)), tv(*final(n_r))),
        forall|t: T| #[trigger] tells(t, entry, res, 0) && part_of(tv(*old(n_r)), t) ==> r.is_none() && part_of(tv(*final(n_r)), t),
        r.is_none() ==> shown(entry, res, tv(*final(n_r)), 0), r.is_none() ==> grown(tv(*old(n_r)), tv(*final(n_r)), entry.VrfOutput@, 0)
//@end
pub proof fn filled_xs(a: T, b: T) requires filled(a, b) ensures xs(a).len() == xs(b).len() decreases a
{ match a { T::P(l, r, _) => { match b { T::P(l2, r2, _) => { filled_xs(*l, *l2); filled_xs(*r, *r2); } _ => {} } } _ => {} } }
// the hashes of the largest subtrees no searched key leads into, from left to right
pub open spec fn copath(cs: Suite, t: T, ks: KS, d: int) -> Seq<Seq<u8>> decreases t
{ if knone(ks) { seq![th(cs, t)] } else { match t { T::P(l, r, _) => copath(cs, *l, kside(ks, d, false), d + 1) + copath(cs, *r, kside(ks, d, true), d + 1), _ => Seq::empty() } } }
// no searched key leads into an unknown subtree
pub open spec fn settled(s: T, ks: KS, d: int) -> bool { forall|k: Seq<u8>| #[trigger] ks(k) ==> !(at(s, k, d) is X) }
pub proof fn settled_side(l: T, r: T, f: bool, ks: KS, d: int) requires settled(T::P(Box::new(l), Box::new(r), f), ks, d) ensures settled(l, kside(ks, d, false), d + 1), settled(r, kside(ks, d, true), d + 1)
{
    let t = T::P(Box::new(l), Box::new(r), f);
    assert forall|k: Seq<u8>| #[trigger] kside(ks, d, false)(k) implies !(at(l, k, d + 1) is X) by { assert(ks(k)); assert(at(t, k, d) == at(l, k, d + 1)); }
    assert forall|k: Seq<u8>| #[trigger] kside(ks, d, true)(k) implies !(at(r, k, d + 1) is X) by { assert(ks(k)); assert(at(t, k, d) == at(r, k, d + 1)); }
}
pub proof fn count_x(cs: Suite, s: T, t: T, ks: KS, d: int) requires part_of(s, t), covered(s, ks, d), settled(s, ks, d), no_nil(s) ensures xs(s).len() == copath(cs, t, ks, d).len() decreases s
{
    match s {
        T::P(l, r, f) => { match t { T::P(l2, r2, _) => { settled_side(*l, *r, f, ks, d); count_x(cs, *l, *l2, kside(ks, d, false), d + 1); count_x(cs, *r, *r2, kside(ks, d, true), d + 1); } _ => {} } }
        T::X(_) => { if !knone(ks) { let k = choose|k: Seq<u8>| #[trigger] ks(k); assert(ks(k)); } }
        _ => {}
    }
}
pub proof fn fill_right(cs: Suite, s: T, s2: T, t: T, ks: KS, d: int)
    requires part_of(s, t), covered(s, ks, d), settled(s, ks, d), no_nil(s), filled(s, s2), xs(s2) == copath(cs, t, ks, d)
    ensures th(cs, s2) == th(cs, t)
    decreases s
{
    count_x(cs, s, t, ks, d);
    match s {
        T::P(l, r, f) => { match t { T::P(l2, r2, _) => { match s2 { T::P(l3, r3, _) => {
            settled_side(*l, *r, f, ks, d); let k0 = kside(ks, d, false); let k1 = kside(ks, d, true);
            count_x(cs, *l, *l2, k0, d + 1); count_x(cs, *r, *r2, k1, d + 1); filled_xs(*l, *l3); filled_xs(*r, *r3);
            let n = xs(*l3).len() as int;
            assert(xs(*l3) =~= xs(s2).take(n)); assert(copath(cs, *l2, k0, d + 1) =~= copath(cs, t, ks, d).take(n)); assert(xs(*r3) =~= xs(s2).skip(n)); assert(copath(cs, *r2, k1, d + 1) =~= copath(cs, t, ks, d).skip(n));
            fill_right(cs, *l, *l3, *l2, k0, d + 1); fill_right(cs, *r, *r3, *r2, k1, d + 1);
        } _ => {} } } _ => {} } }
        T::X(_) => { if !knone(ks) { let k = choose|k: Seq<u8>| #[trigger] ks(k); assert(ks(k)); } assert(xs(s2)[0] == th(cs, t)); }
        _ => {}
    }
}
//@go tree/prefix.fillInCopath
pub fn px_fillInCopath(n_r: &mut Node, elements: Slice<Slice<u8>>) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires fresh(*old(n_r)), no_nil(tv(*old(n_r)))
    ensures fresh(*final(n_r)), filled(tv(*old(n_r)), tv(*final(n_r))),
        r.1.is_none() ==> hv(elements@) == xs(tv(*final(n_r))) + hv(r.0@), elements@.len() >= xs(tv(*old(n_r))).len() ==> r.1.is_none(),
    decreases *old(n_r)
//@hint entry
    let ghost n0 = n; let ghost elements0 = elements; proof { reveal_with_fuel(tv, 2); reveal_with_fuel(no_nil, 2); reveal_with_fuel(filled, 2); reveal_with_fuel(fresh, 2); filled_refl(tv(n)); }
//@hint return
    proof { if ret.1.is_none() { if tv(n) is P { let l = *tv(n)->P_0; let r = *tv(n)->P_1; assert(xs(tv(n)) == xs(l) + xs(r)); } assert(hv(elements0@) =~= xs(tv(n)) + hv(ret.0@)); } }
//@hint after call px_fillInCopath 1
    proof { if RES1.is_none() { filled_xs(*tv(n0)->P_0, tv(m.left)); assert(xs(tv(n0)) == xs(*tv(n0)->P_0) + xs(*tv(n0)->P_1)); assert(hv(elements0@).len() == xs(tv(m.left)).len() + hv(RES0@).len()); assert(elements0@.len() >= xs(tv(n0)).len() ==> RES0@.len() >= xs(*tv(n0)->P_1).len()); } }
//@end

//@go tree/prefix.compareEntries
pub fn px_compareEntries(a: px_Entry, b: px_Entry) -> (r: i64) ensures r == cmp(a.VrfOutput@, b.VrfOutput@)
//@end
pub open spec fn perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && forall|q: int| 0 <= q < n ==> #[trigger] p.contains(q) }
pub open spec fn permuted<A>(a: Seq<A>, b: Seq<A>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]] }
//@ext slices.SortFunc#compareEntries
pub fn slices_SortFunc_cmpe(v: &mut Slice<px_Entry>) ensures final(v).nil == old(v).nil, final(v)@.len() == old(v)@.len(), exists|p: Seq<int>| #[trigger] perm(p, old(v)@.len() as int) && permuted(old(v)@, final(v)@, p), forall|x: px_Entry| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> cmp((#[trigger] final(v)@[i]).VrfOutput@, (#[trigger] final(v)@[j]).VrfOutput@) <= 0
//@end
// C05: what an accepted proof says about the root it computes
pub open spec fn shows(cs: Suite, entries: Seq<px_Entry>, p: px_PrefixProof, t: T) -> bool {
    &&& sized(hsize(cs), t, true) && no_nil(t) && skel(t, 0) && placed(t, 0) && covered(t, keyset(entries), 0)
    &&& forall|i: int| 0 <= i < entries.len() ==> (#[trigger] entries[i]).VrfOutput@.len() == hsize(cs)
    &&& entries.len() == p.Results@.len()
    &&& forall|i: int| 0 <= i < entries.len() ==> shown(#[trigger] entries[i], p.Results@[i], t, 0)
}
// a proof that says of t what is true, with nothing more or less than it takes
pub open spec fn entry_ok(n: int, e: px_Entry) -> bool { e.VrfOutput@.len() == n && (e.Commitment.nil@ || e.Commitment@.len() == n) }
pub open spec fn proves(cs: Suite, es: Seq<px_Entry>, p: px_PrefixProof, t: T) -> bool {
    &&& es.len() == p.Results@.len() && hv(p.Elements@) == copath(cs, t, keyset(es), 0)
    &&& forall|i: int| 0 <= i < es.len() ==> entry_ok(hsize(cs), #[trigger] es[i]) && tells(t, es[i], p.Results@[i], 0)
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).VrfOutput@ != (#[trigger] es[j]).VrfOutput@
}
pub proof fn shown_settled(cs: Suite, es: Seq<px_Entry>, rs: Seq<PSR>, t: T) requires forall|i: int| 0 <= i < es.len() ==> shown(#[trigger] es[i], rs[i], t, 0) ensures settled(t, keyset(es), 0)
{ assert forall|k: Seq<u8>| #[trigger] keyset(es)(k) implies !(at(t, k, 0) is X) by { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).VrfOutput@ == k; assert(shown(es[i], rs[i], t, 0)); } }
//@go tree/prefix.evaluate
pub fn px_evaluate(cs: Suite, entries: Slice<px_Entry>, proof_: px_PrefixProof) -> (r: (Node, Option<GoErr>))
    requires hsize(cs) >= 32, proof_ok(hsize(cs), proof_)
    ensures r.1.is_none() ==> fresh(r.0) && shows(cs, entries@, proof_, tv(r.0)) && hv(proof_.Elements@) == xs(tv(r.0)), forall|t: T| #[trigger] proves(cs, entries@, proof_, t) ==> r.1.is_none() && th(cs, tv(r.0)) == th(cs, t)
//@hint entry
    let ghost mut root1_ = T::E;
//@hint before call slices_SortFunc_cmpe 1
    proof { assert(sortedEntries@ =~= entries@); }
//@loop 1
    invariant forall|i: int| 0 <= i < IDX ==> (#[trigger] SEQ@[i]).VrfOutput@.len() == hsize(cs),
//@loop 2
    invariant SEQ == entries, hsize(cs) >= 32, proof_ok(hsize(cs), proof_), entries@.len() == proof_.Results@.len(), forall|i: int| 0 <= i < entries@.len() ==> (#[trigger] entries@[i]).VrfOutput@.len() == hsize(cs),
        fresh(root), skel(tv(root), 0), sized(hsize(cs), tv(root), false), placed(tv(root), 0), covered(tv(root), keyset(entries@), 0), forall|i: int| 0 <= i < IDX ==> shown(#[trigger] entries@[i], proof_.Results@[i], tv(root), 0),
        forall|t: T| #[trigger] proves(cs, entries@, proof_, t) ==> part_of(tv(root), t),
//@hint before loop 2
    proof { assert forall|i: int| 0 <= i < entries@.len() implies (#[trigger] entries@[i]).VrfOutput@.len() == hsize(cs) by { assert(entries@.contains(entries@[i])); assert(sortedEntries@.contains(entries@[i])); let j = choose|j: int| 0 <= j < sortedEntries@.len() && sortedEntries@[j] == entries@[i]; assert(sortedEntries@[j].VrfOutput@.len() == hsize(cs)); } }
//@hint loop 2 top
    let ghost root0 = tv(root); proof { assert(keyset(entries@)(entry.VrfOutput@)) by { assert(entries@[IDX - 1] == entry); } assert forall|t: T| #[trigger] proves(cs, entries@, proof_, t) implies tells(t, entry, proof_.Results@[IDX - 1], 0) by { assert(entries@[IDX - 1] == entry); } }
//@hint after call px_addToSkeleton 1
    proof { assert forall|t: T| #[trigger] proves(cs, entries@, proof_, t) implies RES.is_none() && part_of(tv(root), t) by { assert(tells(t, entry, proof_.Results@[i as int], 0)); } }
//@hint loop 2 bottom
    proof { assert forall|i: int| 0 <= i < IDX implies shown(#[trigger] entries@[i], proof_.Results@[i], tv(root), 0) by { if i < IDX - 1 { finer_at(root0, tv(root), entries@[i].VrfOutput@, 0); } } }
//@hint after loop 2
    proof {
        root1_ = tv(root); skel_no_nil(tv(root), 0); shown_settled(cs, entries@, proof_.Results@, tv(root));
        assert forall|t: T| #[trigger] proves(cs, entries@, proof_, t) implies proof_.Elements@.len() == xs(root1_).len() by { count_x(cs, root1_, t, keyset(entries@), 0); assert(hv(proof_.Elements@).len() == proof_.Elements@.len()); }
    }
//@hint after call px_fillInCopath 1
    proof { if RES1.is_none() { filled_xs(root1_, tv(root)); assert(hv(proof_.Elements@).len() == xs(tv(root)).len() + hv(RES0@).len()); assert(RES0@.len() == hv(RES0@).len()); } }
//@hint return 8
    proof {
        assert forall|t: T| #[trigger] proves(cs, entries@, proof_, t) implies th(cs, tv(root)) == th(cs, t) by { assert(hv(elements@) =~= Seq::empty()); assert(xs(tv(root)) + hv(elements@) =~= xs(tv(root))); fill_right(cs, root1_, tv(root), t, keyset(entries@), 0); }
        assert(hv(elements@) =~= Seq::empty()); assert(xs(tv(root)) + hv(elements@) =~= xs(tv(root)));
        let x = xs(tv(root)); assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).len() == hsize(cs) by { assert(x[i] == proof_.Elements@[i]@); }
        filled_finer(root1_, tv(root)); filled_shape(root1_, tv(root), keyset(entries@), 0); filled_skel(root1_, tv(root), 0); filled_sized(hsize(cs), root1_, tv(root)); skel_no_nil(tv(root), 0);
        assert forall|i: int| 0 <= i < entries@.len() implies shown(#[trigger] entries@[i], proof_.Results@[i], tv(root), 0) by { finer_at(root1_, tv(root), entries@[i].VrfOutput@, 0); }
    }
//@end
// C05: the root an accepted proof evaluates to is the hash of a partial tree
// in which every searched entry is, or is not, as the proof's result says
pub open spec fn evaluates(cs: Suite, entries: Seq<px_Entry>, p: px_PrefixProof, root: Seq<u8>) -> bool {
    exists|t: T| #[trigger] shows(cs, entries, p, t) && hashed(cs, t) && root == th(cs, t) && hv(p.Elements@) == xs(t)
}
//@go tree/prefix.Evaluate
pub fn px_Evaluate(cs: Suite, entries: Slice<px_Entry>, proof_: px_PrefixProof) -> (r: (Slice<u8>, Option<GoErr>))
    requires hsize(cs) >= 32, proof_ok(hsize(cs), proof_)
    ensures r.1.is_none() ==> evaluates(cs, entries@, proof_, r.0@), forall|t: T| #[trigger] proves(cs, entries@, proof_, t) ==> r.1.is_none() && r.0@ == th(cs, t)
//@hint after call px_evaluate 1
    let ghost t0 = tv(RES0); proof { if RES1.is_none() { fresh_sound(cs, RES0, 0); } reveal_with_fuel(hashed, 2); }
//@hint return 2
    proof { assert(shows(cs, entries@, proof_, t0)); assert(hashed(cs, t0)); }
//@end
//@go tree/prefix.Verify
pub fn px_Verify(cs: Suite, entries: Slice<px_Entry>, proof_: px_PrefixProof, root: Slice<u8>) -> (r: Option<GoErr>)
    requires hsize(cs) >= 32, proof_ok(hsize(cs), proof_)
    ensures r.is_none() ==> evaluates(cs, entries@, proof_, root@), forall|t: T| #[trigger] proves(cs, entries@, proof_, t) && root@ == th(cs, t) ==> r.is_none()
//@end

// ---- soundness: a proof accepted against the root of a real tree tells the truth about it
// a digest is never the all-zero string that stands for an empty subtree
#[verifier::external_body]
pub proof fn axiom_nonzero(cs: Suite, b: Seq<u8>) requires used(cs, b) ensures sha(cs, b) != zeros(hsize(cs)) {}
// a complete tree: nothing unknown, full keys, and every hash computed
pub open spec fn full(cs: Suite, t: T) -> bool { complete(t) && sized(hsize(cs), t, true) && hashed(cs, t) }
pub open spec fn complete(t: T) -> bool decreases t { match t { T::P(l, r, _) => complete(*l) && complete(*r), T::X(_) => false, T::Z => false, _ => true } }
pub proof fn th_len(cs: Suite, t: T) requires sized(hsize(cs), t, true) ensures th(cs, t).len() == hsize(cs) decreases t
{ match t { T::P(l, r, _) => { th_len(cs, *l); th_len(cs, *r); } _ => {} } }
pub proof fn same_place(cs: Suite, t: T, u: T, k: Seq<u8>, d: int)
    requires th(cs, t) == th(cs, u), sized(hsize(cs), t, true), hashed(cs, t), full(cs, u), !(at(t, k, d) is X)
    ensures at(u, k, d) == at(t, k, d), dep(u, k, d) == dep(t, k, d)
    decreases t
{
    match t {
        T::E => { match u { T::L(k2, c2) => { axiom_nonzero(cs, lin(k2, c2)); } T::P(l2, r2, _) => { axiom_nonzero(cs, pin(th(cs, *l2), th(cs, *r2))); } _ => {} } }
        T::L(k1, c1) => { match u {
            T::L(k2, c2) => { axiom_cr(cs, lin(k1, c1), lin(k2, c2)); let a = lin(k1, c1); let b = lin(k2, c2); assert(k1 =~= a.subrange(1, 1 + hsize(cs))); assert(k2 =~= b.subrange(1, 1 + hsize(cs))); assert(c1 =~= a.skip(1 + hsize(cs))); assert(c2 =~= b.skip(1 + hsize(cs))); }
            T::P(l2, r2, _) => { axiom_cr(cs, lin(k1, c1), pin(th(cs, *l2), th(cs, *r2))); assert(lin(k1, c1)[0] == 2); assert(pin(th(cs, *l2), th(cs, *r2))[0] == 3); }
            _ => { axiom_nonzero(cs, lin(k1, c1)); }
        } }
        T::P(l1, r1, _) => { let a = pin(th(cs, *l1), th(cs, *r1)); th_len(cs, *l1); th_len(cs, *r1); match u {
            T::L(k2, c2) => { axiom_cr(cs, lin(k2, c2), a); assert(lin(k2, c2)[0] == 2); assert(a[0] == 3); }
            T::P(l2, r2, _) => {
                let b = pin(th(cs, *l2), th(cs, *r2)); axiom_cr(cs, a, b); th_len(cs, *l2); th_len(cs, *r2); let n = hsize(cs);
                assert(th(cs, *l1) =~= a.subrange(1, 1 + n)); assert(th(cs, *l2) =~= b.subrange(1, 1 + n)); assert(th(cs, *r1) =~= a.skip(1 + n)); assert(th(cs, *r2) =~= b.skip(1 + n));
                if bit(k, d) { same_place(cs, *r1, *r2, k, d + 1); } else { same_place(cs, *l1, *l2, k, d + 1); }
            }
            _ => { axiom_nonzero(cs, a); }
        } }
        _ => {}
    }
}
// the entry (k, c) is in the tree
pub open spec fn holds(t: T, k: Seq<u8>, c: Seq<u8>) -> bool decreases t
{ match t { T::P(l, r, _) => holds(*l, k, c) || holds(*r, k, c), T::L(k2, c2) => k == k2 && c == c2, _ => false } }
// every leaf lies where a search for its key leads
pub open spec fn placed(t: T, d: int) -> bool decreases t
{ match t { T::P(l, r, _) => placed(*l, d + 1) && placed(*r, d + 1) && bits_are(*l, d, false) && bits_are(*r, d, true), _ => true } }
pub open spec fn bits_are(t: T, d: int, b: bool) -> bool decreases t
{ match t { T::P(l, r, _) => bits_are(*l, d, b) && bits_are(*r, d, b), T::L(k, _) => bit(k, d) == b, _ => true } }
pub proof fn holds_bit(t: T, k: Seq<u8>, c: Seq<u8>, d: int, b: bool) requires holds(t, k, c), bits_are(t, d, b) ensures bit(k, d) == b decreases t
{ match t { T::P(l, r, _) => { if holds(*l, k, c) { holds_bit(*l, k, c, d, b); } else { holds_bit(*r, k, c, d, b); } } _ => {} } }
pub proof fn holds_at(t: T, k: Seq<u8>, c: Seq<u8>, d: int) requires placed(t, d) ensures holds(t, k, c) <==> at(t, k, d) == T::L(k, c) decreases t
{
    match t {
        T::P(l, r, _) => {
            holds_at(*l, k, c, d + 1); holds_at(*r, k, c, d + 1);
            if holds(*l, k, c) { holds_bit(*l, k, c, d, false); }
            if holds(*r, k, c) { holds_bit(*r, k, c, d, true); }
        }
        _ => {}
    }
}
pub open spec fn told(entries: Seq<px_Entry>, p: px_PrefixProof, u: T, i: int) -> bool {
    &&& psr_incl(p.Results@[i]) ==> holds(u, entries[i].VrfOutput@, entries[i].Commitment@)
    &&& !psr_incl(p.Results@[i]) ==> forall|c: Seq<u8>| !holds(u, entries[i].VrfOutput@, c)
}
// C05
pub proof fn prop_prefix_sound(cs: Suite, entries: Seq<px_Entry>, p: px_PrefixProof, u: T)
    requires evaluates(cs, entries, p, th(cs, u)), full(cs, u), placed(u, 0)
    ensures forall|i: int| 0 <= i < entries.len() ==> #[trigger] told(entries, p, u, i)
{
    let t = choose|t: T| #[trigger] shows(cs, entries, p, t) && hashed(cs, t) && th(cs, u) == th(cs, t) && hv(p.Elements@) == xs(t);
    assert forall|i: int| 0 <= i < entries.len() implies #[trigger] told(entries, p, u, i) by {
        let k = entries[i].VrfOutput@; assert(shown(entries[i], p.Results@[i], t, 0));
        same_place(cs, t, u, k, 0);
        holds_at(u, k, entries[i].Commitment@, 0);
        assert forall|c: Seq<u8>| !psr_incl(p.Results@[i]) implies !holds(u, k, c) by { holds_at(u, k, c, 0); }
    }
}
