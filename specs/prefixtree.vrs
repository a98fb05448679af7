//@import prefixbuild.vrs
// ---- Tree.Search and Tree.Mutate (C06, C07). Loading tiles is assumed: once
// batch.search has returned without an error, the roots batch.initialize handed
// out stand for the maps of their versions, with every searched key reached.
//@nonnil tree/prefix.Tree tree/prefix.tile tree/prefix.batch tree/prefix.node tree/prefix.parentNode tree/prefix.PrefixProof tree/prefix.Entry tree/prefix.proofBuilder
//@typemap db.PrefixStore PxStore PxStore::any()
//@typemap tree/prefix.batch PxBatch PxBatch::any()
//@typemap map[*tree/prefix.node][]tree/prefix.cursor PxState PxState::any()
//@emit tree/prefix.tile tree/prefix.Tree tree/prefix.PrefixSearch tree/prefix.SearchResult
pub struct PxStore { pub id: Ghost<int> }
impl Clone for PxStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PxStore {}
impl PxStore { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct PxBatch { pub cs: Suite, pub tx: PxStore }
impl Clone for PxBatch { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PxBatch {}
impl PxBatch { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct PxState { pub want: Ghost<Map<u64, Slice<Slice<u8>>>>, pub out: Ghost<Map<u64, px_tile>> }
impl Clone for PxState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PxState {}
impl PxState { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
// the map a stored version holds
pub uninterp spec fn stored(tx: PxStore, ver: u64) -> M;
pub open spec fn held(tx: PxStore, ver: u64) -> M { if ver == 0 { |k: Seq<u8>| None::<Seq<u8>> } else { stored(tx, ver) } }
// every parent comes from a tile
pub open spec fn from_tiles(t: T) -> bool decreases t { match t { T::P(l, r, f) => f && from_tiles(*l) && from_tiles(*r), T::Z => false, _ => true } }
// the root of a version that holds m, loaded as far as a search for keys needs
pub open spec fn loaded(cs: Suite, n: Node, m: M, keys: KS) -> bool {
    &&& sound(cs, n) && tall(tv(n), 8 * hsize(cs), 0) && placed(tv(n), 0) && committed(hsize(cs), tv(n)) && sized(hsize(cs), tv(n), false) && from_tiles(tv(n))
    &&& fits(cs, tv(n), m, 0) && safe(tv(n), m, 0)
    &&& forall|k: Seq<u8>| #[trigger] keys(k) ==> !(at(tv(n), k, 0) is X)
}
//@ext tree/prefix.newBatch
pub fn px_newBatch(cs: Suite, tx: PxStore) -> (r: PxBatch) ensures r.cs == cs, r.tx == tx
//@end
//@ext tree/prefix.batch.initialize
pub fn px_initialize(b: PxBatch, searches: GoMap<u64, Slice<Slice<u8>>>) -> (r: (GoMap<u64, px_tile>, PxState))
    ensures r.0@.dom() == searches@.dom(), r.1.want@ == searches@, r.1.out@ == r.0@
//@end
//@ext tree/prefix.batch.search
pub fn px_search(b: PxBatch, state: PxState) -> (r: Option<GoErr>)
    requires forall|v: u64| #[trigger] state.want@.dom().contains(v) ==> v != 0 && forall|i: int| 0 <= i < state.want@[v]@.len() ==> (#[trigger] state.want@[v]@[i])@.len() == hsize(b.cs)
    ensures r.is_none() ==> forall|v: u64| #[trigger] state.want@.dom().contains(v) ==> loaded(b.cs, state.out@[v].root, stored(b.tx, v), bkeys(state.want@[v]@))
//@end
//@ext tree/prefix.splitIntoTiles
pub fn px_splitIntoTiles(cs: Suite, ver: u64, root: Node) -> (r: Slice<px_tile>)
//@end
//@ext tree/prefix.tile.Marshal
pub fn px_tile_Marshal(t: px_tile, cs: Suite) -> (r: (Slice<u8>, Option<GoErr>))
//@end
//@ext tree/prefix.tileId.String
pub fn px_tileId_String(t: px_tileId) -> (r: Slice<u8>)
//@end
//@ext db.PrefixStore.Put
pub fn pxs_Put(s: PxStore, key: Slice<u8>, val: Slice<u8>) -> (r: Option<GoErr>)
//@end
pub open spec fn keys_of(es: Seq<px_Entry>) -> Seq<Slice<u8>> { Seq::new(es.len(), |i: int| es[i].VrfOutput) }
// the removed keys as entries, with the commitments they had
pub open spec fn ents(rem: Seq<Slice<u8>>, com: Seq<Slice<u8>>) -> Seq<px_Entry> { Seq::new(rem.len(), |i: int| px_Entry { VrfOutput: rem[i], Commitment: com[i] }) }
// C06: the result of a search of a version that holds m
pub open spec fn finds(cs: Suite, m: M, keys: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>) -> bool {
    exists|n: Node| #[trigger] loaded(cs, n, m, bkeys(keys)) && answers(cs, tv(n), keys, p, com)
}
pub proof fn at_content(cs: Suite, t: T, m: M, k: Seq<u8>, d: int) requires fits(cs, t, m, d), !(at(t, k, d) is X) ensures has(t, k, d) == m(k) decreases t
{ match t { T::P(l, r, _) => { if bit(k, d) { at_content(cs, *r, side(m, d, true), k, d + 1); } else { at_content(cs, *l, side(m, d, false), k, d + 1); } } _ => {} } }
// C06: exactly the commitments the version holds, nothing for other keys
pub proof fn prop_search_exact(cs: Suite, m: M, keys: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>)
    requires finds(cs, m, keys, p, com)
    ensures forall|i: int| 0 <= i < keys.len() ==> match m((#[trigger] keys[i])@) { Some(c) => com[i]@ == c, None => com[i].nil@ }
{
    let n = choose|n: Node| #[trigger] loaded(cs, n, m, bkeys(keys)) && answers(cs, tv(n), keys, p, com);
    assert forall|i: int| 0 <= i < keys.len() implies match m((#[trigger] keys[i])@) { Some(c) => com[i]@ == c, None => com[i].nil@ } by { assert(bkeys(keys)(keys[i]@)); at_content(cs, tv(n), m, keys[i]@, 0); }
}
// C06: Verify accepts the result against the root of the version
pub proof fn prop_search_verifies(cs: Suite, m: M, keys: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>, es: Seq<px_Entry>)
    requires finds(cs, m, keys, p, com), asks(keys, com, es), forall|i: int| 0 <= i < keys.len() ==> (#[trigger] keys[i])@.len() == hsize(cs), forall|i: int, j: int| 0 <= i < j < keys.len() ==> (#[trigger] keys[i])@ != (#[trigger] keys[j])@
    ensures exists|t: T| #[trigger] proves(cs, es, p, t) && th(cs, t) == th(cs, canon(m, 8 * hsize(cs), 0))
{
    let n = choose|n: Node| #[trigger] loaded(cs, n, m, bkeys(keys)) && answers(cs, tv(n), keys, p, com);
    assert forall|i: int| 0 <= i < keys.len() implies (#[trigger] keys[i])@.len() == hsize(cs) && near(tv(n), keys[i]@, 0) by {}
    prop_built_verifies(cs, tv(n), keys, p, com, es); fits_hash(cs, tv(n), m, 0);
}
//@go tree/prefix.Tree.Search
pub fn px_Search(t: px_Tree, searches: Slice<px_PrefixSearch>) -> (r: (Slice<px_SearchResult>, Option<GoErr>))
    ensures r.1.is_none() ==> r.0@.len() == searches@.len() && forall|i: int| 0 <= i < searches@.len() ==> finds(t.cs, stored(t.tx, (#[trigger] searches@[i]).Version), searches@[i].VrfOutputs@, r.0@[i].Proof, r.0@[i].Commitments@)
//@hint entry
    let ghost t0 = t; let ghost ss = searches@;
//@loop 1
    invariant SEQ == searches, searches@ == ss, t == t0, !combined.nil@,
        forall|v: u64| #[trigger] combined@.dom().contains(v) ==> v != 0 && full_keys(hsize(t.cs), combined@[v]@),
        forall|i: int| 0 <= i < IDX ==> combined@.dom().contains((#[trigger] ss[i]).Version) && within(ss[i].VrfOutputs@, combined@[ss[i].Version]@),
    decreases SEQ@.len() - IDX
//@loop 2
    invariant SEQ == search.VrfOutputs, t == t0, forall|i: int| 0 <= i < IDX ==> (#[trigger] SEQ@[i])@.len() == hsize(t.cs),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost c0 = combined@; proof { assert(ss[IDX - 1] == search); }
//@hint loop 1 bottom
    proof {
        let v0 = search.Version; let old = if c0.dom().contains(v0) { c0[v0]@ } else { Seq::empty() };
        assert(combined@[v0]@ =~= old + search.VrfOutputs@);
        assert(full_keys(hsize(t.cs), combined@[v0]@)) by { assert forall|i: int| 0 <= i < combined@[v0]@.len() implies (#[trigger] combined@[v0]@[i])@.len() == hsize(t.cs) by { if i < old.len() { assert(combined@[v0]@[i] == old[i]); } else { assert(combined@[v0]@[i] == search.VrfOutputs@[i - old.len()]); } } }
        assert forall|i: int| 0 <= i < IDX implies combined@.dom().contains((#[trigger] ss[i]).Version) && within(ss[i].VrfOutputs@, combined@[ss[i].Version]@) by {
            let v = ss[i].Version;
            if i < IDX - 1 { assert(within(ss[i].VrfOutputs@, c0[v]@)); if v == v0 { within_more(ss[i].VrfOutputs@, old, search.VrfOutputs@); } }
            else { within_tail(old, search.VrfOutputs@); }
        }
    }
//@loop 3
    invariant SEQ == searches, searches@ == ss, t == t0, out@.len() == ss.len(), res@.dom() == combined@.dom(),
        forall|v: u64| #[trigger] combined@.dom().contains(v) ==> full_keys(hsize(t.cs), combined@[v]@) && loaded(t.cs, res@[v].root, stored(t.tx, v), bkeys(combined@[v]@)),
        forall|i: int| 0 <= i < ss.len() ==> combined@.dom().contains((#[trigger] ss[i]).Version) && within(ss[i].VrfOutputs@, combined@[ss[i].Version]@),
        forall|i: int| 0 <= i < IDX ==> finds(t.cs, stored(t.tx, (#[trigger] ss[i]).Version), ss[i].VrfOutputs@, out@[i].Proof, out@[i].Commitments@),
    decreases SEQ@.len() - IDX
//@hint loop 3 top
    proof { assert(ss[IDX - 1] == search); assert(ss[i as int] == search); }
//@hint before call px_runProofBuilder 1
    proof { let v = search.Version; assert(ss[i as int] == search); loaded_within(t.cs, tile.root, stored(t.tx, v), search.VrfOutputs@, combined@[v]@); }
//@end
pub open spec fn full_keys(n: int, s: Seq<Slice<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == n }
pub open spec fn within(a: Seq<Slice<u8>>, b: Seq<Slice<u8>>) -> bool { forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) }
pub proof fn within_more(a: Seq<Slice<u8>>, b: Seq<Slice<u8>>, c: Seq<Slice<u8>>) requires within(a, b) ensures within(a, b + c)
{ assert forall|i: int| 0 <= i < a.len() implies (b + c).contains(#[trigger] a[i]) by { let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert((b + c)[j] == a[i]); } }
pub proof fn within_tail(b: Seq<Slice<u8>>, c: Seq<Slice<u8>>) ensures within(c, b + c)
{ assert forall|i: int| 0 <= i < c.len() implies (b + c).contains(#[trigger] c[i]) by { assert((b + c)[b.len() + i] == c[i]); } }
pub proof fn loaded_within(cs: Suite, n: Node, m: M, a: Seq<Slice<u8>>, b: Seq<Slice<u8>>)
    requires loaded(cs, n, m, bkeys(b)), within(a, b), full_keys(hsize(cs), b)
    ensures loaded(cs, n, m, bkeys(a)), full_keys(hsize(cs), a), forall|i: int| 0 <= i < a.len() ==> !(at(tv(n), (#[trigger] a[i])@, 0) is X)
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i])@.len() == hsize(cs) && bkeys(b)(a[i]@) by { assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j]@ == a[i]@); }
    assert forall|k: Seq<u8>| #[trigger] bkeys(a)(k) implies !(at(tv(n), k, 0) is X) by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == k; assert(bkeys(b)(a[i]@)); }
}
// ---- mutations
// what getMutationRoot establishes before the tree is changed
pub open spec fn begun(cs: Suite, n: Node, m: M, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>) -> bool {
    &&& loaded(cs, n, m, bkeys(keys_of(add) + rem)) && com.len() == rem.len()
    &&& exists|all: Seq<Slice<u8>>| #[trigger] answers(cs, tv(n), keys_of(add) + rem, p, all) && com == all.skip(add.len() as int)
    &&& forall|i: int| 0 <= i < add.len() ==> m((#[trigger] add[i]).VrfOutput@).is_some() ==> rs(rem)(add[i].VrfOutput@)
    &&& forall|j: int| 0 <= j < rem.len() ==> m((#[trigger] rem[j])@).is_some()
}
pub proof fn empty_loaded(cs: Suite, n: Node, keys: KS) requires n is Empty, hsize(cs) >= 0 ensures loaded(cs, n, |k: Seq<u8>| None::<Seq<u8>>, keys)
{ reveal_with_fuel(sound, 2); reveal_with_fuel(tall, 2); reveal_with_fuel(placed, 2); reveal_with_fuel(fits, 2); reveal_with_fuel(safe, 2); reveal_with_fuel(tv, 2); reveal_with_fuel(at, 2); }
//@go tree/prefix.Tree.getMutationRoot
//@attr hide loaded
//@attr hide answers
pub fn px_getMutationRoot(t: px_Tree, ver: u64, add: Slice<px_Entry>, remove: Slice<Slice<u8>>) -> (r: (Node, px_PrefixProof, Slice<Slice<u8>>, Option<GoErr>))
    requires hsize(t.cs) >= 32, add@.len() + remove@.len() <= i64::MAX, full_keys(hsize(t.cs), keys_of(add@)), full_keys(hsize(t.cs), remove@)
    ensures r.3.is_none() ==> begun(t.cs, r.0, held(t.tx, ver), add@, remove@, r.1, r.2@)
//@hint entry
    let ghost t0 = t; let ghost add0 = add@; let ghost rem0 = remove@; let ghost all = keys_of(add0) + rem0; let ghost m = held(t.tx, ver); let ghost cs = t.cs; let ghost mut com0 = Seq::<Slice<u8>>::empty();
    proof { assert(full_keys(hsize(cs), all)) by { assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i])@.len() == hsize(cs) by { if i < add0.len() { assert(all[i] == keys_of(add0)[i]); } else { assert(all[i] == rem0[i - add0.len()]); } } } }
//@loop 1
    invariant SEQ == add, add@ == add0, remove@ == rem0, t == t0, vrfOutputs@.len() == IDX, forall|i: int| 0 <= i < IDX ==> #[trigger] vrfOutputs@[i] == add0[i].VrfOutput,
    decreases SEQ@.len() - IDX
//@hint before call px_runProofBuilder 1
    proof { assert(vrfOutputs@ =~= all); reveal(loaded); empty_loaded(cs, Node::Empty(root), bkeys(all)); reveal_with_fuel(sound, 2); reveal_with_fuel(tall, 2); reveal_with_fuel(at, 2); reveal_with_fuel(tv, 2); }
//@hint before call px_initialize 1
    proof { assert(vrfOutputs@ =~= all); }
//@hint before call px_runProofBuilder 2
    proof { assert(loaded(cs, root, m, bkeys(all))); reveal(loaded); assert forall|i: int| 0 <= i < all.len() implies !(at(tv(root), (#[trigger] all[i])@, 0) is X) by { assert(bkeys(all)(all[i]@)); } }
//@hint after call px_runProofBuilder 2
    proof { com0 = RES1@; reveal(answers); reveal(loaded); assert forall|i: int| 0 <= i < all.len() implies match m((#[trigger] all[i])@) { Some(c) => RES1@[i]@ == c && c.len() > 0, None => RES1@[i].nil@ } by { assert(bkeys(all)(all[i]@)); at_content(cs, tv(root), m, all[i]@, 0); sized_at(hsize(cs), tv(root), all[i]@, 0); } }
//@loop 2
    invariant vrfOutputs@ == all, all.len() == com0.len(), add@ == add0, t == t0, commitments@ == com0, SEQ@ == com0.subrange(0, add0.len() as int), all == keys_of(add0) + rem0,
        forall|i: int| 0 <= i < all.len() ==> match m((#[trigger] all[i])@) { Some(c) => com0[i]@ == c && c.len() > 0, None => com0[i].nil@ },
        forall|i: int| 0 <= i < IDX ==> m((#[trigger] add0[i]).VrfOutput@).is_some() ==> rs(rem0)(add0[i].VrfOutput@),
    decreases SEQ@.len() - IDX
//@loop 3
    invariant vrfOutputs@ == all, SEQ@ == all.subrange(add0.len() as int, all.len() as int), all == keys_of(add0) + rem0, found ==> rs(rem0)(all[i as int]@), 0 <= i < add0.len(), all.len() == add0.len() + rem0.len(),
    decreases SEQ@.len() - IDX
//@hint loop 3 top
    proof { assert(vrfOutput == rem0[IDX - 1]); if vrfOutput@ == all[i as int]@ { assert(rs_at(rem0, all[i as int]@, IDX - 1)); } }
//@hint loop 2 top
    proof { assert(all[IDX - 1] == add0[IDX - 1].VrfOutput); }
//@loop 4
    invariant SEQ@ == com0.subrange(add0.len() as int, com0.len() as int), all == keys_of(add0) + rem0, all.len() == com0.len(), forall|j: int| 0 <= j < IDX ==> !(#[trigger] SEQ@[j]).nil@,
    decreases SEQ@.len() - IDX
//@hint after call px_runProofBuilder 1
    proof { com0 = RES1@; }
//@hint return 2
    proof { reveal(answers); assert(ret.2@ =~= com0.skip(add0.len() as int)); assert(answers(cs, tv(ret.0), keys_of(add0) + rem0, ret.1, com0)); }
//@hint return 6
    proof { reveal(answers); assert(ret.2@ =~= com0.skip(add0.len() as int)); assert(answers(cs, tv(ret.0), keys_of(add0) + rem0, ret.1, com0));
        assert forall|j: int| 0 <= j < rem0.len() implies m((#[trigger] rem0[j])@).is_some() by { assert(all[add0.len() + j] == rem0[j]); let x = com0.subrange(add0.len() as int, com0.len() as int); assert(x[j] == com0[add0.len() + j]); assert(!x[j].nil@); } }
//@end
pub open spec fn distinct(s: Seq<Slice<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@ }
pub proof fn unperm_apart(a: Seq<px_Entry>, b: Seq<px_Entry>, p: Seq<int>) requires perm(p, a.len() as int), permuted(a, b, p), a.len() == b.len(), apart(b) ensures apart(a)
{ assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).VrfOutput@ != (#[trigger] a[j]).VrfOutput@ by {
    assert(p.contains(i)); assert(p.contains(j)); let x = choose|x: int| 0 <= x < p.len() && p[x] == i; let y = choose|y: int| 0 <= y < p.len() && p[y] == j; assert(b[x] == a[i] && b[y] == a[j]);
    if x < y { assert(b[x].VrfOutput@ != b[y].VrfOutput@); } else { assert(b[y].VrfOutput@ != b[x].VrfOutput@); } } }
pub proof fn unperm_distinct(a: Seq<Slice<u8>>, b: Seq<Slice<u8>>, p: Seq<int>) requires perm(p, a.len() as int), permuted(a, b, p), a.len() == b.len(), distinct(b) ensures distinct(a)
{ assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i])@ != (#[trigger] a[j])@ by {
    assert(p.contains(i)); assert(p.contains(j)); let x = choose|x: int| 0 <= x < p.len() && p[x] == i; let y = choose|y: int| 0 <= y < p.len() && p[y] == j; assert(b[x] == a[i] && b[y] == a[j]);
    if x < y { assert(b[x]@ != b[y]@); } else { assert(b[y]@ != b[x]@); } } }
pub proof fn strict_bytes(s: Seq<Slice<u8>>, n: int)
    requires full_keys(n, s), forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp((#[trigger] s[i])@, (#[trigger] s[j])@) <= 0, forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i])@ != s[i - 1]@
    ensures distinct(s), rlist(s, n, 0)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i])@ != (#[trigger] s[j])@ by {
        let a = s[i]@; let b = s[j]@; cmp_vals(a, b);
        if a == b { let c = s[i + 1]@; assert(s[i + 1]@ != s[i + 1 - 1]@); cmp_vals(a, c); cmp_vals(c, a); if j > i + 1 { assert(cmp(s[i + 1]@, s[j]@) <= 0); } }
    }
}
pub proof fn loaded_ready(t: T, ks: KS, a: M, r: KS, n: int, d: int)
    requires from_tiles(t), tall(t, 8 * n, d), 0 <= d, sized(n, t, false), placed(t, d), known(t, ks, a, r, d), forall|k: Seq<u8>| #[trigger] ks(k) ==> near(t, k, d) && k.len() == n
    ensures ready(t, a, r, n, d)
    decreases t
{
    match t {
        T::P(l, rr, f) => {
            assert forall|k: Seq<u8>| #[trigger] ks(k) implies (bit(k, d) ==> near(*rr, k, d + 1)) && (!bit(k, d) ==> near(*l, k, d + 1)) by { near_side(*l, *rr, f, k, d); }
            ready_side(*l, *rr, f, ks, a, r, d, false); ready_side(*l, *rr, f, ks, a, r, d, true);
            loaded_ready(*l, kside(ks, d, false), side(a, d, false), kside(r, d, false), n, d + 1);
            loaded_ready(*rr, kside(ks, d, true), side(a, d, true), kside(r, d, true), n, d + 1);
        }
        T::L(k, c) => {
            assert forall|j: Seq<u8>| (#[trigger] a(j)).is_some() implies agree(j, k, d) && (j == k ==> r(k)) by { assert(ks(j)); near_leaf(k, c, j, d); }
        }
        T::X(_) => { assert forall|k: Seq<u8>| (#[trigger] a(k)).is_none() by { if a(k).is_some() { assert(ks(k)); } } assert forall|k: Seq<u8>| !(#[trigger] r(k)) by { if r(k) { assert(ks(k)); } } }
        _ => {}
    }
}
pub open spec fn whole(n: int, add: Seq<px_Entry>) -> bool { forall|i: int| 0 <= i < add.len() ==> (#[trigger] add[i]).VrfOutput@.len() == n && add[i].Commitment@.len() == n }
// C06, C07: what a mutation that was not refused has done
pub open spec fn performed(cs: Suite, m: M, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, root: Seq<u8>, p: px_PrefixProof, com: Seq<Slice<u8>>) -> bool {
    &&& exists|n: Node| #[trigger] begun(cs, n, m, add, rem, p, com)
    &&& apart(add) && distinct(rem) && whole(hsize(cs), add) && full_keys(hsize(cs), rem)
    &&& root == th(cs, canon(upd(m, am(add), rs(rem)), 8 * hsize(cs), 0))
}
pub proof fn begun_start(cs: Suite, n: Node, m: M, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>)
    requires begun(cs, n, m, add, rem, p, com), apart(add), whole(hsize(cs), add), full_keys(hsize(cs), rem)
    ensures sound(cs, n), ready(tv(n), am(add), rs(rem), hsize(cs), 0), start(cs, tv(n), m, am(add), rs(rem), 0)
{
    let a = am(add); let r = rs(rem); let all = keys_of(add) + rem; let ks = bkeys(all); let t = tv(n);
    assert forall|k: Seq<u8>| (#[trigger] a(k)).is_some() implies ks(k) && (at(t, k, 0) is L && at(t, k, 0)->L_0 == k ==> r(k)) by {
        am_some(add, k); let i = choose|i: int| 0 <= i < add.len() && (#[trigger] add[i]).VrfOutput@ == k; assert(all[i] == add[i].VrfOutput); assert(ks(k)); at_content(cs, t, m, k, 0); }
    assert forall|k: Seq<u8>| #[trigger] r(k) implies ks(k) by { let i = choose|i: int| rs_at(rem, k, i); assert(all[add.len() + i]@ == k); }
    assert forall|k: Seq<u8>| #[trigger] ks(k) implies (a(k).is_some() || r(k)) && !(at(t, k, 0) is X) && near(t, k, 0) && k.len() == hsize(cs) by {
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == k; am_some(add, k);
        if i < add.len() { assert(add[i].VrfOutput@ == k); } else { assert(rs_at(rem, k, i - add.len())); } }
    loaded_ready(t, ks, a, r, hsize(cs), 0);
}
// what Mutate checks on its sorted copies holds for its inputs
pub proof fn sorted_inputs(add0: Seq<px_Entry>, sa: Seq<px_Entry>, rem0: Seq<Slice<u8>>, sr: Seq<Slice<u8>>, n: int)
    requires exists|p: Seq<int>| #[trigger] perm(p, add0.len() as int) && permuted(add0, sa, p), exists|q: Seq<int>| #[trigger] perm(q, rem0.len() as int) && permuted(rem0, sr, q), sa.len() == add0.len(), sr.len() == rem0.len(),
        forall|x: px_Entry| #[trigger] sa.contains(x) <==> add0.contains(x), forall|x: Slice<u8>| #[trigger] sr.contains(x) <==> rem0.contains(x),
        forall|i: int, j: int| 0 <= i < j < sa.len() ==> cmp((#[trigger] sa[i]).VrfOutput@, (#[trigger] sa[j]).VrfOutput@) <= 0, forall|i: int, j: int| 0 <= i < j < sr.len() ==> cmp((#[trigger] sr[i])@, (#[trigger] sr[j])@) <= 0,
        forall|i: int| 0 <= i < sa.len() ==> (#[trigger] sa[i]).VrfOutput@.len() == n && sa[i].Commitment@.len() == n, forall|i: int| 1 <= i < sa.len() ==> (#[trigger] sa[i]).VrfOutput@ != sa[i - 1].VrfOutput@,
        forall|i: int| 0 <= i < sr.len() ==> (#[trigger] sr[i])@.len() == n, forall|i: int| 1 <= i < sr.len() ==> (#[trigger] sr[i])@ != sr[i - 1]@,
    ensures alist(sa, n, 0), rlist(sr, n, 0), apart(add0), distinct(rem0), whole(n, add0), full_keys(n, rem0), full_keys(n, keys_of(add0)), am(add0) == am(sa), rs(rem0) == rs(sr)
{
        let p = choose|p: Seq<int>| #[trigger] perm(p, add0.len() as int) && permuted(add0, sa, p); let q = choose|q: Seq<int>| #[trigger] perm(q, rem0.len() as int) && permuted(rem0, sr, q);
        strict(sa, n); strict_bytes(sr, n); alist_apart(sa, n); unperm_apart(add0, sa, p); unperm_distinct(rem0, sr, q); am_perm(add0, sa, n);
        assert(rs(rem0) == rs(sr)) by { rs_same(rem0, sr); }
        assert forall|i: int| 0 <= i < add0.len() implies (#[trigger] add0[i]).VrfOutput@.len() == n && add0[i].Commitment@.len() == n by { assert(p.contains(i)); let x = choose|x: int| 0 <= x < p.len() && p[x] == i; assert(sa[x] == add0[i]); }
        assert forall|i: int| 0 <= i < rem0.len() implies (#[trigger] rem0[i])@.len() == n by { assert(q.contains(i)); let x = choose|x: int| 0 <= x < q.len() && q[x] == i; assert(sr[x] == rem0[i]); }
        assert(whole(n, add0)); assert(full_keys(n, keys_of(add0)));
}
pub proof fn performed_now(cs: Suite, n0: Node, t1: T, m: M, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, p: px_PrefixProof, com: Seq<Slice<u8>>)
    requires begun(cs, n0, m, add, rem, p, com), apart(add), distinct(rem), whole(hsize(cs), add), full_keys(hsize(cs), rem), fits(cs, t1, upd(m, am(add), rs(rem)), 0)
    ensures performed(cs, m, add, rem, th(cs, t1), p, com)
{ fits_hash(cs, t1, upd(m, am(add), rs(rem)), 0); }
//@go tree/prefix.Tree.Mutate
//@attr hide performed
//@attr hide loaded
//@attr hide fits
//@attr hide apart
//@attr hide distinct
//@attr hide perm
//@attr hide permuted
//@attr hide begun
//@attr hide am
//@attr hide rs
//@attr hide canon
//@attr hide start
//@attr hide ready
pub fn px_Mutate(t: px_Tree, ver: u64, add: Slice<px_Entry>, remove: Slice<Slice<u8>>) -> (r: (Slice<u8>, px_PrefixProof, Slice<Slice<u8>>, Option<GoErr>))
    requires hsize(t.cs) >= 32, ver < u64::MAX, add@.len() + remove@.len() <= i64::MAX
    ensures r.3.is_none() ==> performed(t.cs, held(t.tx, ver), add@, remove@, r.0@, r.1, r.2@)
//@hint entry
    let ghost t0 = t; let ghost cs = t.cs; let ghost add0 = add@; let ghost rem0 = remove@; let ghost m = held(t.tx, ver); let ghost n = hsize(cs); let ghost mut sa = add0; let ghost mut sr = rem0;
//@hint before call slices_SortFunc_cmpe 1
    proof { assert(sortedAdd@ =~= add0); }
//@hint before loop 1
    proof { sa = sortedAdd@; }
//@loop 1
    invariant SEQ == sortedAdd, sortedAdd@ == sa, t == t0, cs == t.cs, n == hsize(cs), forall|i: int| 0 <= i < IDX ==> (#[trigger] sa[i]).VrfOutput@.len() == n && sa[i].Commitment@.len() == n, forall|i: int| 1 <= i < IDX ==> (#[trigger] sa[i]).VrfOutput@ != sa[i - 1].VrfOutput@,
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { assert(sa[IDX - 1] == entry); }
//@hint before call slices_SortFunc_bytes 1
    proof { assert(sortedRemove@ =~= rem0); }
//@hint before loop 2
    proof { sr = sortedRemove@; }
//@loop 2
    invariant SEQ == sortedRemove, sortedRemove@ == sr, t == t0, cs == t.cs, n == hsize(cs), forall|i: int| 0 <= i < IDX ==> (#[trigger] sr[i])@.len() == n, forall|i: int| 1 <= i < IDX ==> (#[trigger] sr[i])@ != sr[i - 1]@,
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    proof { assert(sr[IDX - 1] == vrfOutput); }
//@hint before call px_getMutationRoot 1
    proof { sorted_inputs(add0, sa, rem0, sr, n); }
//@hint before call px_addRemoveEntries 1
    let ghost n0 = root; proof { begun_start(cs, n0, m, add0, rem0, proof_, commitments@); }
//@hint after call px_addRemoveEntries 1
    proof { performed_now(cs, n0, tv(root), m, add0, rem0, proof_, commitments@); }
//@loop 3
    invariant performed(cs, m, add0, rem0, rootHash@, proof_, commitments@),
    decreases SEQ@.len() - IDX
//@end
pub proof fn alist_apart(s: Seq<px_Entry>, n: int) requires alist(s, n, 0) ensures apart(s)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).VrfOutput@ != (#[trigger] s[j]).VrfOutput@ by { cmp_vals(s[i].VrfOutput@, s[j].VrfOutput@); } }
pub proof fn rs_same(a: Seq<Slice<u8>>, b: Seq<Slice<u8>>) requires forall|x: Slice<u8>| #[trigger] b.contains(x) <==> a.contains(x) ensures rs(a) == rs(b)
{
    assert forall|k: Seq<u8>| rs(a)(k) == #[trigger] rs(b)(k) by {
        if rs(a)(k) { let i = choose|i: int| rs_at(a, k, i); assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(rs_at(b, k, j)); }
        if rs(b)(k) { let i = choose|i: int| rs_at(b, k, i); assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(rs_at(a, k, j)); }
    }
    assert(rs(a) =~= rs(b));
}
// C07: the evaluation of the proof a mutation returned accepts it against the root of the version
pub proof fn prop_mutation_evaluates(cs: Suite, m: M, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, root: Seq<u8>, p: px_PrefixProof, com: Seq<Slice<u8>>)
    requires performed(cs, m, add, rem, root, p, com)
    ensures exists|t: T| #[trigger] goes(cs, add, ents(rem, com), p, t) && th(cs, t) == th(cs, canon(m, 8 * hsize(cs), 0))
{
    let n = choose|n: Node| #[trigger] begun(cs, n, m, add, rem, p, com); let t = tv(n); let keys = keys_of(add) + rem; let es = ents(rem, com); let a = add.len() as int;
    let all = choose|all: Seq<Slice<u8>>| #[trigger] answers(cs, tv(n), keys, p, all) && com == all.skip(a);
    reveal(goes); fits_hash(cs, t, m, 0);
    assert(keyset(add + es) =~= bkeys(keys)) by { assert forall|k: Seq<u8>| keyset(add + es)(k) == #[trigger] bkeys(keys)(k) by {
        if keyset(add + es)(k) { let i = choose|i: int| 0 <= i < (add + es).len() && (#[trigger] (add + es)[i]).VrfOutput@ == k; assert(keys[i]@ == k); }
        if bkeys(keys)(k) { let i = choose|i: int| 0 <= i < keys.len() && (#[trigger] keys[i])@ == k; assert((add + es)[i].VrfOutput@ == k); }
    } }
    assert forall|k: Seq<u8>| #[trigger] bkeys(keys)(k) implies has(t, k, 0) == m(k) by { at_content(cs, t, m, k, 0); }
    assert forall|i: int| 0 <= i < a implies (#[trigger] add[i]).VrfOutput@.len() == hsize(cs) && add[i].Commitment@.len() == hsize(cs) && answer(t, add[i].VrfOutput@, 0, p.Results@[i]) && (psr_incl(p.Results@[i]) ==> keyset(es)(add[i].VrfOutput@)) by {
        let k = add[i].VrfOutput@; assert(keys[i]@ == k); assert(bkeys(keys)(k));
        if psr_incl(p.Results@[i]) { assert(has(t, k, 0).is_some()); assert(rs(rem)(k)); let j = choose|j: int| rs_at(rem, k, j); assert(es[j].VrfOutput@ == k); }
    }
    assert forall|j: int| 0 <= j < rem.len() implies entry_ok(hsize(cs), #[trigger] es[j]) && tells(t, es[j], p.Results@[a + j], 0) && psr_incl(p.Results@[a + j]) by {
        let k = rem[j]@; assert(keys[a + j] == rem[j]); assert(bkeys(keys)(k)); assert(m(k).is_some()); assert(all[a + j] == com[j]); assert(answer(t, keys[a + j]@, 0, p.Results@[a + j]));
        sized_at(hsize(cs), t, k, 0); assert(near(t, k, 0));
    }
    assert(apart(es)) by { assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).VrfOutput@ != (#[trigger] es[j]).VrfOutput@ by { assert(rem[i]@ != rem[j]@); } }
    assert(apart(add));
    assert(p.Results@.len() == add.len() + es.len());
    assert(hv(p.Elements@) == copath(cs, t, keyset(add + es), 0));
    assert(placed(t, 0));
    assert(goes(cs, add, es, p, t));
}
// C07: what the evaluation then returns are the roots before and after the mutation
pub proof fn prop_mutation_roots(cs: Suite, m: M, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, root: Seq<u8>, p: px_PrefixProof, com: Seq<Slice<u8>>, before: Seq<u8>, after: Seq<u8>, ok: bool)
    requires performed(cs, m, add, rem, root, p, com), full(cs, canon(m, 8 * hsize(cs), 0)),
        // EvaluateBeforeAfter's contract
        forall|t: T| #[trigger] goes(cs, add, ents(rem, com), p, t) ==> ok && before == th(cs, t), ok ==> turns(cs, add, ents(rem, com), p, before, after),
        rem.len() == 0 || undisclosed(cs, p, m, th(cs, canon(m, 8 * hsize(cs), 0)))
    ensures ok, before == th(cs, canon(m, 8 * hsize(cs), 0)), after == root
{
    prop_mutation_evaluates(cs, m, add, rem, root, p, com);
    prop_before_after(cs, add, ents(rem, com), p, m, after);
    assert(keyset(ents(rem, com)) =~= rs(rem)) by { assert forall|k: Seq<u8>| keyset(ents(rem, com))(k) == #[trigger] rs(rem)(k) by {
        let es = ents(rem, com);
        if keyset(es)(k) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).VrfOutput@ == k; assert(rs_at(rem, k, i)); }
        if rs(rem)(k) { let j = choose|j: int| rs_at(rem, k, j); assert(es[j].VrfOutput@ == k); }
    } }
}
