//@import mutate.vrs
// ---- C18: a mutation as a whole
//@typemap time.Time Time
//@typemap tree/log.Tree LogTree LogTree::any()
//@typemap tree/prefix.Tree PrefixTree PrefixTree::any()
//@typemap db.LogStore NodeStore NodeStore::any()
//@typemap db.PrefixStore NodeStore NodeStore::any()
//@typemap tree/transparency/algorithms.ProducedProofHandle Handle Handle::nil()
//@nonnil tree/log.Tree tree/prefix.Tree tree/transparency/algorithms.ProducedProofHandle tree/transparency/structs.TreeHeadTBS
pub struct Time { pub ms: Ghost<int> }
impl Clone for Time { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Time {}
//@ext time.Now
pub fn time_Now() -> (r: Time) ensures 0 <= r.ms@ <= i64::MAX
//@end
//@ext time.Time.UnixMilli
pub fn time_UnixMilli(t: Time) -> (r: i64) ensures 0 <= t.ms@ <= i64::MAX ==> r == t.ms@
//@end
pub struct NodeStore { pub id: Ghost<int> }
impl Clone for NodeStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for NodeStore {}
impl NodeStore { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct LogTree { pub cs: Suite }
impl Clone for LogTree { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for LogTree {}
impl LogTree { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct PrefixTree { pub cs: Suite }
impl Clone for PrefixTree { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for PrefixTree {}
impl PrefixTree { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
// C03, C06: what the trees compute is uninterpreted here.
pub uninterp spec fn appended(cs: Suite, n: u64, leaf: Seq<u8>, full: Seq<Slice<u8>>) -> bool;
pub uninterp spec fn root_of_full(cs: Suite, n: u64, full: Seq<Slice<u8>>) -> Seq<u8>;
pub uninterp spec fn mutated(cs: Suite, n: u64, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, root: Seq<u8>, coms: Seq<Slice<u8>>, p: px_PrefixProof) -> bool;
pub uninterp spec fn entry_hash(cs: Suite, ts: u64, root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn enc_le(ts: u64, root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn enc_tht(c: st_PublicConfig, n: u64, root: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn enc_head(n: u64, sig: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn TBS_of_st_LogEntry(t: st_LogEntry) -> (r: TBS) ensures r.b@ == enc_le(t.Timestamp, t.PrefixTree@) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_TreeHeadTBS(t: st_TreeHeadTBS) -> (r: TBS) ensures r.b@ == enc_tht(t.Config, t.TreeSize, t.Root@) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_Option_st_TreeHead_(t: Option<st_TreeHead>) -> (r: TBS) requires t.is_some() ensures r.b@ == enc_head(t.unwrap().TreeSize, t.unwrap().Signature@) { unimplemented!() }
#[verifier::external_body]
pub fn TBS_of_st_TreeHead(t: st_TreeHead) -> (r: TBS) ensures r.b@ == enc_head(t.TreeSize, t.Signature@) { unimplemented!() }
//@ext db.TransparencyStore.LogStore
pub fn ts_LogStore(d: DB) -> (r: NodeStore)
//@end
//@ext db.TransparencyStore.PrefixStore
pub fn ts_PrefixStore(d: DB) -> (r: NodeStore)
//@end
//@ext db.TransparencyStore.Put
pub fn ts_Put(d: &mut DB, key: u64, data: Slice<u8>) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(d) == *old(d), r.is_none() ==> *final(d) == (DB { entries: Ghost(old(d).entries@.insert(key, data@)), ..*old(d) })
//@end
//@ext db.TransparencyStore.PutTreeHead
pub fn ts_PutTreeHead(d: &mut DB, raw: Slice<u8>) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(d) == *old(d), r.is_none() ==> *final(d) == (DB { head: Ghost(Some(raw@)), ..*old(d) })
//@end
//@ext db.TransparencyStore.Commit
pub fn ts_Commit(d: &mut DB) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(d) == *old(d), r.is_none() ==> *final(d) == (DB { committed: Ghost(true), ..*old(d) })
//@end
//@ext tree/log.NewTree
pub fn lg_NewTree(cs: Suite, tx: NodeStore) -> (r: LogTree) ensures r.cs == cs
//@end
//@ext tree/log.Tree.Append
pub fn lg_Append(t: LogTree, n: u64, leaf: Slice<u8>) -> (r: (Slice<Slice<u8>>, Option<GoErr>)) ensures r.1.is_none() ==> appended(t.cs, n, leaf@, r.0@)
//@end
//@ext tree/log.Root
pub fn lg_Root(cs: Suite, n: u64, full: Slice<Slice<u8>>) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0@ == root_of_full(cs, n, full@)
//@end
//@ext tree/transparency/structs.LogEntry.Hash
pub fn st_LogEntryHash(le: st_LogEntry, cs: Suite) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none() ==> r.0@ == entry_hash(cs, le.Timestamp, le.PrefixTree@)
//@end
//@ext tree/prefix.NewTree
pub fn px_NewTree(cs: Suite, tx: NodeStore) -> (r: PrefixTree) ensures r.cs == cs
//@end
//@ext tree/prefix.Tree.Mutate
pub fn px_Mutate(t: PrefixTree, ver: u64, add: Slice<px_Entry>, remove: Slice<Slice<u8>>) -> (r: (Slice<u8>, px_PrefixProof, Slice<Slice<u8>>, Option<GoErr>))
    ensures r.3.is_none() ==> r.2@.len() == remove@.len() && mutated(t.cs, ver, add@, remove@, r.0@, r.2@, r.1)
//@end
//@ext tree/transparency/algorithms.NewProducedProofHandle
pub fn al_NewProducedProofHandle(cs: Suite, tx: DB, index: Slice<u64>) -> (r: Handle) ensures !r.nil@
//@end
pub fn Handle_of_Handle(h: Handle) -> (r: Handle) ensures r == h { h }
//@ext slices.SortFunc#lit
pub fn slices_SortFunc_entry(v: &mut Slice<px_Entry>) ensures final(v).nil == old(v).nil, final(v)@.len() == old(v)@.len(), forall|x: px_Entry| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x)
//@end
//@ext slices.SortFunc#Compare
pub fn slices_SortFunc_bytes(v: &mut Slice<Slice<u8>>) ensures final(v).nil == old(v).nil, final(v)@.len() == old(v)@.len(), forall|x: Slice<u8>| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x)
//@end
// the head of size n + 1 is signed over the root of the log with the new entry
pub open spec fn pub_of(c: st_PrivateConfig) -> st_PublicConfig { st_PublicConfig { Config: c.Config, SignatureKey: key_pub(c.SignatureKey.id@), VrfKey: vrf_pub(c.VrfKey) } }
pub open spec fn is_head(c: st_PrivateConfig, n: u64, ts: u64, proot: Seq<u8>, h: st_TreeHead) -> bool {
    h.TreeSize == n + 1 && exists|full: Seq<Slice<u8>>| appended(c.Config.Suite, n, entry_hash(c.Config.Suite, ts, proot), full) && sig_ok(key_pub(c.SignatureKey.id@), enc_tht(pub_of(c), h.TreeSize, #[trigger] root_of_full(c.Config.Suite, h.TreeSize, full)), h.Signature@)
}
//@go tree/transparency.Tree.issueTreeHead
pub fn tr_issueTreeHead(t_r: &mut tr_Tree, n: u64, timestamp: u64, prefixRoot: Slice<u8>) -> (r: Option<GoErr>)
    requires n < u64::MAX
    ensures final(t_r).tx.index == old(t_r).tx.index, final(t_r).tx.vers == old(t_r).tx.vers,
        // a failed request publishes nothing
        r.is_some() ==> final(t_r).treeHead == old(t_r).treeHead && final(t_r).tx.committed == old(t_r).tx.committed,
        r.is_none() ==> final(t_r).treeHead.is_some() && is_head(old(t_r).config, n, timestamp, prefixRoot@, final(t_r).treeHead.unwrap()),
        r.is_none() ==> final(t_r).tx.committed@ && final(t_r).tx.entries@ == old(t_r).tx.entries@.insert(n, enc_le(timestamp, prefixRoot@)) && final(t_r).tx.head@ == Some(enc_head((n + 1) as u64, final(t_r).treeHead.unwrap().Signature@)),
//@end
// ---- the state of the store after every label's writes
pub proof fn effect_base(t: tr_Tree, n: u64, m: tr_labelMutation, d0: DB, d: DB, e: DB, es: Seq<px_Entry>) requires effect(t, n, m, d, e, es), same_label(d0, d, m.label@) ensures effect(t, n, m, d0, e, es)
{
    let l = m.label@; let b = base_index(m).len() as int; let k = m.add@.len() as int;
    assert forall|v: u32| !(b <= v < b + k) implies #[trigger] ver_of(e, l, v) == (if removed(m) && v < m.index@.len() { None } else { ver_of(d0, l, v) }) by { assert(ver_of(d, l, v) == ver_of(d0, l, v)); }
}
pub proof fn same_trans(a: DB, b: DB, c: DB, l: Seq<u8>) requires same_label(a, b, l), same_label(b, c, l) ensures same_label(a, c, l)
{ assert forall|v: u32| #[trigger] ver_of(c, l, v) == ver_of(a, l, v) by { assert(ver_of(b, l, v) == ver_of(a, l, v)); } }
pub proof fn same_maps(a: DB, b: DB, l: Seq<u8>) requires a.index == b.index, a.vers == b.vers ensures same_label(a, b, l)
{ assert forall|v: u32| #[trigger] ver_of(b, l, v) == ver_of(a, l, v) by {} }
// the first k mutations are carried out in e, the rest of d is as it was
#[verifier::opaque]
pub open spec fn all_done(t: tr_Tree, n: u64, g: Seq<tr_labelMutation>, k: int, d: DB, e: DB, es: Seq<px_Entry>) -> bool {
    &&& forall|i: int| 0 <= i < k ==> effect(t, n, #[trigger] g[i], d, e, es)
    &&& forall|l: Seq<u8>| !in_first(g, k, l) ==> #[trigger] same_label(d, e, l)
}
pub open spec fn in_first(g: Seq<tr_labelMutation>, k: int, l: Seq<u8>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] g[i]).label@ == l }
pub proof fn done_start(t: tr_Tree, n: u64, g: Seq<tr_labelMutation>, d: DB, es: Seq<px_Entry>) ensures all_done(t, n, g, 0, d, d, es) { reveal(all_done); assert forall|l: Seq<u8>| #[trigger] same_label(d, d, l) by {} }
pub proof fn done_step(t: tr_Tree, n: u64, g: Seq<tr_labelMutation>, k: int, d: DB, e: DB, f: DB, es: Seq<px_Entry>, fs: Seq<px_Entry>, w: Seq<Later>, add: Seq<px_Entry>, rem: Seq<Slice<u8>>)
    requires all_done(t, n, g, k, d, e, es), 0 <= k < g.len(), forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).label@ != (#[trigger] g[j]).label@, label_done(t, n, g[k], w, add, rem), own_adds(g[k]), g[k].index@.len() + g[k].add@.len() < 0x1_0000_0000,
        f == applies(e, w, w.len() as int), fs == es + add
    ensures all_done(t, n, g, k + 1, d, f, fs)
{
    reveal(all_done);
    let m = g[k]; lemma_label(t, n, m, w, add, rem, e);
    assert(!in_first(g, k, m.label@)) by { if in_first(g, k, m.label@) { let i = choose|i: int| 0 <= i < k && (#[trigger] g[i]).label@ == m.label@; assert(g[i].label@ != g[k].label@); } }
    assert(same_label(d, e, m.label@));
    assert forall|x: px_Entry| #[trigger] es.contains(x) implies fs.contains(x) by { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(fs[i] == x); }
    assert forall|x: px_Entry| #[trigger] add.contains(x) implies fs.contains(x) by { let i = choose|i: int| 0 <= i < add.len() && add[i] == x; assert(fs[es.len() + i] == x); }
    assert forall|i: int| 0 <= i < k + 1 implies effect(t, n, #[trigger] g[i], d, f, fs) by {
        if i < k { assert(g[i].label@ != g[k].label@); assert(same_label(e, f, g[i].label@)); effect_keep(t, n, g[i], d, e, f, es, fs); }
        else { effect_base(t, n, m, d, e, f, add); assert(same_label(f, f, m.label@)); effect_keep(t, n, m, d, f, f, add, fs); }
    }
    assert forall|l: Seq<u8>| !in_first(g, k + 1, l) implies #[trigger] same_label(d, f, l) by {
        assert(!in_first(g, k, l)) by { if in_first(g, k, l) { let i = choose|i: int| 0 <= i < k && (#[trigger] g[i]).label@ == l; assert(0 <= i < k + 1); } }
        assert(l != m.label@) by { if l == m.label@ { assert(g[k].label@ == l); } }
        assert(same_label(e, f, l)); assert(same_label(d, e, l)); same_trans(d, e, f, l); }
}
pub proof fn done_keep(t: tr_Tree, n: u64, g: Seq<tr_labelMutation>, k: int, d: DB, e: DB, f: DB, es: Seq<px_Entry>, fs: Seq<px_Entry>)
    requires all_done(t, n, g, k, d, e, es), e.index == f.index, e.vers == f.vers, forall|x: px_Entry| es.contains(x) ==> #[trigger] fs.contains(x)
    ensures all_done(t, n, g, k, d, f, fs)
{
    reveal(all_done);
    assert forall|i: int| 0 <= i < k implies effect(t, n, #[trigger] g[i], d, f, fs) by { same_maps(e, f, g[i].label@); effect_keep(t, n, g[i], d, e, f, es, fs); }
    assert forall|l: Seq<u8>| !in_first(g, k, l) implies #[trigger] same_label(d, f, l) by { assert(same_label(d, e, l)); same_maps(e, f, l); same_trans(d, e, f, l); }
}
// ---- what a mutation does, label by label
pub open spec fn is_list(s: Seq<u64>, n: u64, raw: Seq<u8>) -> bool { nondecr(s) && within(s, n) && raw == enc_index(s) }
// every label's positions, and room for k more versions
pub open spec fn room_with(d: DB, n: u64, k: int, l: Seq<u8>, s: Seq<u64>) -> bool { is_list(s, n, index_of(d, l)) && s.len() + k < 0x1_0000_0000 }
pub open spec fn room_at(d: DB, n: u64, k: int, l: Seq<u8>) -> bool { exists|s: Seq<u64>| room_with(d, n, k, l, s) }
pub open spec fn db_ok(d: DB, n: u64, k: int) -> bool { forall|l: Seq<u8>| room_at(d, n, k, l) }
// l's positions were s: what the mutation makes of them, and of the versions.
// es are the entries added to the prefix tree.
pub open spec fn label_moved(t: tr_Tree, n: u64, a: Seq<tr_LabelValue>, rm: bool, l: Seq<u8>, s: Seq<u64>, d: DB, e: DB, es: Seq<px_Entry>) -> bool {
    let s0 = if rm { Seq::<u64>::empty() } else { s }; let b = s0.len() as int; let k = a.len() as int;
    &&& is_list(with_new(s0, n, k), (n + 1) as u64, index_of(e, l))
    &&& forall|v: u32| b <= v < b + k ==> (#[trigger] ver_of(e, l, v)).is_some() && put_in(t, es, a[v - b], v, ver_of(e, l, v).unwrap())
    &&& forall|v: u32| !(b <= v < b + k) ==> #[trigger] ver_of(e, l, v) == (if rm && v < s.len() { None } else { ver_of(d, l, v) })
}
pub open spec fn moved(t: tr_Tree, n: u64, add: Seq<tr_LabelValue>, rem: Seq<Slice<u8>>, d: DB, e: DB, es: Seq<px_Entry>) -> bool {
    forall|l: Seq<u8>, s: Seq<u64>| #[trigger] is_list(s, n, index_of(d, l)) ==> label_moved(t, n, adds_of(add, add.len() as int, l), named_by(rem, rem.len() as int, l), l, s, d, e, es)
}
pub proof fn list_grows(s: Seq<u64>, n: u64, k: int) requires nondecr(s), within(s, n), k >= 0, n < u64::MAX ensures nondecr(with_new(s, n, k)), within(with_new(s, n, k), (n + 1) as u64)
{
    let w = with_new(s, n, k);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] <= w[j] by { if i < s.len() { assert(s[i] < n); } }
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] < n + 1 by { if i < s.len() { assert(s[i] < n); } }
}
pub proof fn all_moved(t: tr_Tree, n: u64, add: Seq<tr_LabelValue>, rem: Seq<Slice<u8>>, g: Seq<tr_labelMutation>, d: DB, e: DB, es: Seq<px_Entry>)
    requires n < u64::MAX, t.tx == d, all_done(t, n, g, g.len() as int, d, e, es),
        forall|i: int| 0 <= i < g.len() ==> is_group(t, add, rem, #[trigger] g[i]),
        forall|l: Seq<u8>| affected(add, add.len() as int, rem, rem.len() as int, l) <==> #[trigger] has_group(g, l),
    ensures moved(t, n, add, rem, d, e, es)
{
    reveal(all_done);
    assert forall|l: Seq<u8>, s: Seq<u64>| #[trigger] is_list(s, n, index_of(d, l)) implies label_moved(t, n, adds_of(add, add.len() as int, l), named_by(rem, rem.len() as int, l), l, s, d, e, es) by {
        let a = adds_of(add, add.len() as int, l); let rm = named_by(rem, rem.len() as int, l); let s0 = if rm { Seq::<u64>::empty() } else { s };
        list_grows(s0, n, a.len() as int);
        if has_group(g, l) {
            let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).label@ == l; let m = g[i];
            assert(is_group(t, add, rem, m)); assert(m.index@ == s); assert(effect(t, n, m, d, e, es)); assert(m.add@ == a && m.remove == rm);
            assert(base_index(m) =~= s0);
            if a.len() == 0 { assert(with_new(s0, n, 0) =~= s0); if removed(m) { assert(enc_index(s0) =~= Seq::<u8>::empty()) by { assert(diffs(s0) =~= Seq::<u64>::empty()); } } }
            assert forall|v: u32| !(s0.len() <= v < s0.len() + a.len()) implies #[trigger] ver_of(e, l, v) == (if rm && v < s.len() { None } else { ver_of(d, l, v) }) by {}
        } else {
            assert(!affected(add, add.len() as int, rem, rem.len() as int, l));
            assert(!in_first(g, g.len() as int, l)); assert(same_label(d, e, l)); assert(with_new(s0, n, 0) =~= s); assert(a.len() == 0);
        }
    }
}
// a label that is removed had not changed since the last distinguished entry
pub open spec fn rest_ok(g: Seq<tr_labelMutation>, k: int, prev: Option<u64>) -> bool { forall|i: int| 0 <= i < k && removed(#[trigger] g[i]) ==> prev.is_some() && g[i].index@.last() <= prev.unwrap() }
pub open spec fn old_enough(add: Seq<tr_LabelValue>, rem: Seq<Slice<u8>>, n: u64, d: DB, prev: Option<u64>) -> bool {
    forall|l: Seq<u8>, s: Seq<u64>| #[trigger] is_list(s, n, index_of(d, l)) && s.len() > 0 && named_by(rem, rem.len() as int, l) ==> prev.is_some() && s.last() <= prev.unwrap()
}
// prev is the last distinguished entry before entry n, given the answers m about timestamps
pub open spec fn is_prev(c: st_PublicConfig, n: u64, m: Map<u64, u64>, prev: Option<u64>) -> bool { forall|f: spec_fn(int) -> int| #[trigger] agree(m, f) ==> rightmost_is(c, n + 1, f, n as int, prev) }
pub open spec fn eligible(c: st_PublicConfig, add: Seq<tr_LabelValue>, rem: Seq<Slice<u8>>, n: u64, d: DB, ts: u64) -> bool {
    exists|m: Map<u64, u64>, prev: Option<u64>| m.dom().contains(n) && m[n] == ts && #[trigger] is_prev(c, n, m, prev) && old_enough(add, rem, n, d, prev)
}
pub open spec fn size_of(t: tr_Tree) -> u64 { if t.treeHead.is_some() { t.treeHead.unwrap().TreeSize } else { 0 } }
pub open spec fn done_mutation(a: tr_Tree, b: tr_Tree, add: Seq<tr_LabelValue>, rem: Seq<Slice<u8>>, u: st_AuditorUpdate) -> bool {
    let n = size_of(a);
    // the labels' position lists and versions
    &&& moved(a, n, add, rem, a.tx, b.tx, u.Added@) && eligible(pub_of(a.config), add, rem, n, a.tx, u.Timestamp)
    // the head covers the entry with the prefix tree these additions and removals give
    &&& b.treeHead.is_some() && b.tx.committed@ && exists|root: Seq<u8>, rs: Seq<Slice<u8>>, cs: Seq<Slice<u8>>| #[trigger] mutated(a.config.Config.Suite, n, u.Added@, rs, root, cs, u.Proof)
        && is_head(a.config, n, u.Timestamp, root, b.treeHead.unwrap()) && b.tx.entries@ == a.tx.entries@.insert(n, enc_le(u.Timestamp, root)) && b.tx.head@ == Some(enc_head((n + 1) as u64, b.treeHead.unwrap().Signature@))
        && u.Removed@.len() == rs.len() && cs.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> (#[trigger] u.Removed@[i]).VrfOutput == rs[i] && u.Removed@[i].Commitment == cs[i]
}
//@go tree/transparency.Tree.Mutate
pub fn tr_Mutate(t_r: &mut tr_Tree, add: Slice<tr_LabelValue>, remove: Slice<Slice<u8>>) -> (r: (Option<st_AuditorUpdate>, Option<GoErr>))
    requires size_of(*old(t_r)) < 0x7fff_ffff_ffff_ffff, db_ok(old(t_r).tx, size_of(*old(t_r)), add@.len() as int),
    ensures r.1.is_none() ==> r.0.is_some() && done_mutation(*old(t_r), *final(t_r), add@, remove@, r.0.unwrap()),
        r.1.is_some() ==> final(t_r).treeHead == old(t_r).treeHead && final(t_r).tx.committed == old(t_r).tx.committed,
//@hint entry
    let ghost t0 = t; let ghost d0 = t.tx; let ghost mut pa0 = Seq::<px_Entry>::empty(); let ghost mut ws = Seq::<Later>::empty(); let ghost mut g = Seq::<tr_labelMutation>::empty(); let ghost mut ts = Map::<u64, u64>::empty();
//@hint before call al_AddRetained 1
    let ghost p1 = provider;
//@hint after call al_AddRetained 1
    proof { assert(joins(p1.timestamps@, p1.prefixTrees@, provider.logEntries@)); assert(provider.logEntries@.dom().contains(n)); assert(provider.timestamps@.dom().contains(n)); assert(provider.timestamps@[n] == timestamp); }
//@hint after call al_PreviousRightmost 1
    proof { ts = provider.timestamps@; assert(ts.dom().contains(n) && ts[n] == timestamp); }
//@hint before loop 1
    proof { g = mutations@; done_start(t0, n, g, d0, prefixAdd@); }
//@loop 1
    invariant t == t0, t0.tx == d0, SEQ@ == g, IDX <= SEQ@.len(), db_ok(d0, n, add@.len() as int),
        forall|i: int| 0 <= i < g.len() ==> is_group(t0, add@, remove@, #[trigger] g[i]),
        forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).label@ != (#[trigger] g[j]).label@,
        all_done(t0, n, g, IDX as int, d0, applies(d0, writes@, writes@.len() as int), prefixAdd@), rest_ok(g, IDX as int, prevDLE),
//@hint loop 1 top
    let ghost k = IDX - 1; let ghost w1 = writes@; let ghost a1 = prefixAdd@;
    proof { assert(is_group(t0, add@, remove@, g[k])); adds_label(add@, add@.len() as int, mutation.label@); assert(room_at(d0, n, add@.len() as int, mutation.label@)); let s = choose|s: Seq<u64>| room_with(d0, n, add@.len() as int, mutation.label@, s); assert(mutation.index@ == s); }
//@hint loop 1 bottom
    proof { applies_add(d0, w1, w@, w@.len() as int); assert(writes@ =~= w1 + w@); assert(prefixAdd@ =~= a1 + pa@); done_step(t0, n, g, k, d0, applies(d0, w1, w1.len() as int), applies(d0, writes@, writes@.len() as int), a1, prefixAdd@, w@, pa@, pr@); }
//@hint after loop 1
    proof { pa0 = prefixAdd@; ws = writes@; }
//@loop 2
    invariant t.config == t0.config, t.treeHead == t0.treeHead, t.tx.committed == d0.committed, t.tx.entries == d0.entries, t.tx == applies(d0, ws, IDX as int), SEQ@ == ws, IDX <= SEQ@.len()
//@hint after call tr_issueTreeHead 1
    proof { done_keep(t0, n, g, g.len() as int, d0, applies(d0, ws, ws.len() as int), t.tx, pa0, prefixAdd@); all_moved(t0, n, add@, remove@, g, d0, t.tx, prefixAdd@);
        assert(old_enough(add@, remove@, n, d0, prevDLE)) by { assert forall|l: Seq<u8>, s: Seq<u64>| #[trigger] is_list(s, n, index_of(d0, l)) && s.len() > 0 && named_by(remove@, remove@.len() as int, l) implies prevDLE.is_some() && s.last() <= prevDLE.unwrap() by {
            assert(affected(add@, add@.len() as int, remove@, remove@.len() as int, l)); assert(has_group(g, l)); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).label@ == l; assert(is_group(t0, add@, remove@, g[i])); assert(g[i].index@ == s); assert(removed(g[i])); } }
        assert(is_prev(pub_of(t0.config), n, ts, prevDLE)); assert(eligible(pub_of(t0.config), add@, remove@, n, d0, timestamp));
        assert(moved(t0, n, add@, remove@, d0, t.tx, prefixAdd@)); assert(mutated(t0.config.Config.Suite, n, prefixAdd@, prefixRemove@, prefixRoot@, commitments@, prefixProof)); }
//@loop 3
    invariant t.treeHead.is_some(), SEQ == prefixRemove, IDX <= SEQ@.len(), commitments@.len() == prefixRemove@.len(), removedEntries@.len() == prefixRemove@.len(), forall|i: int| 0 <= i < IDX ==> (#[trigger] removedEntries@[i]).VrfOutput == prefixRemove@[i] && removedEntries@[i].Commitment == commitments@[i]
//@hint after loop 3
    proof { assert(t.tx.committed@); assert(is_head(t0.config, n, timestamp, prefixRoot@, t.treeHead.unwrap())); assert(removedEntries@.len() == prefixRemove@.len()); assert(t.tx.entries@ == d0.entries@.insert(n, enc_le(timestamp, prefixRoot@)));
      assert(t.tx.head@ == Some(enc_head((n + 1) as u64, t.treeHead.unwrap().Signature@)));
      assert(mutated(t0.config.Config.Suite, n, prefixAdd@, prefixRemove@, prefixRoot@, commitments@, prefixProof)); }
//@hint return 9
    proof { let u = ret.0.unwrap(); assert(u.Added@ == prefixAdd@); assert(u.Removed == removedEntries); assert(u.Proof == prefixProof); assert(moved(t0, n, add@, remove@, d0, t.tx, u.Added@)); assert(eligible(pub_of(t0.config), add@, remove@, n, d0, u.Timestamp));
      assert(n == size_of(t0)); assert(t0 == *old(t_r)); assert(d0 == t0.tx); let rs = prefixRemove@; assert(forall|i: int| 0 <= i < rs.len() ==> (#[trigger] u.Removed@[i]).VrfOutput == rs[i] && u.Removed@[i].Commitment == commitments@[i]); }
//@end
// C18: across any sequence of mutations a label with k positions has exactly
// the versions 0..k-1.
pub open spec fn num_with(d: DB, n: u64, l: Seq<u8>, s: Seq<u64>) -> bool { is_list(s, n, index_of(d, l)) && s.len() < 0x1_0000_0000 && forall|v: u32| #[trigger] ver_of(d, l, v).is_some() <==> v < s.len() }
pub open spec fn num_at(d: DB, n: u64, l: Seq<u8>) -> bool { exists|s: Seq<u64>| num_with(d, n, l, s) }
pub open spec fn numbered(d: DB, n: u64) -> bool { forall|l: Seq<u8>| num_at(d, n, l) }
pub proof fn prop_numbered(t: tr_Tree, n: u64, add: Seq<tr_LabelValue>, rem: Seq<Slice<u8>>, d: DB, e: DB, es: Seq<px_Entry>)
    requires n < u64::MAX, moved(t, n, add, rem, d, e, es), numbered(d, n), db_ok(d, n, add.len() as int)
    ensures numbered(e, (n + 1) as u64), db_ok(e, (n + 1) as u64, 0)
{
    assert forall|l: Seq<u8>| #[trigger] num_at(e, (n + 1) as u64, l) by {
        assert(room_at(d, n, add.len() as int, l)); let s1 = choose|s: Seq<u64>| room_with(d, n, add.len() as int, l, s);
        assert(num_at(d, n, l)); let s = choose|s: Seq<u64>| num_with(d, n, l, s);
        enc_inj(s, s1);
        let a = adds_of(add, add.len() as int, l); let rm = named_by(rem, rem.len() as int, l); adds_label(add, add.len() as int, l);
        let s0 = if rm { Seq::<u64>::empty() } else { s }; let w = with_new(s0, n, a.len() as int);
        assert(label_moved(t, n, a, rm, l, s, d, e, es));
        assert forall|v: u32| #[trigger] ver_of(e, l, v).is_some() <==> v < w.len() by { assert(ver_of(d, l, v).is_some() <==> v < s.len()); if s0.len() <= v < s0.len() + a.len() {} else {} }
        assert(num_with(e, (n + 1) as u64, l, w));
    }
    room(e, (n + 1) as u64);
}
pub proof fn room(e: DB, n: u64) requires numbered(e, n) ensures db_ok(e, n, 0)
{
    assert forall|l: Seq<u8>| room_at(e, n, 0, l) by { assert(num_at(e, n, l)); let s = choose|s: Seq<u64>| num_with(e, n, l, s); assert(room_with(e, n, 0, l, s)); }
}
pub proof fn prop_numbered_empty(d: DB) requires d.index@.dom() == Set::<Seq<u8>>::empty(), d.vers@.dom() == Set::<(Seq<u8>, u32)>::empty() ensures numbered(d, 0)
{
    assert forall|l: Seq<u8>| num_at(d, 0, l) by {
        let s = Seq::<u64>::empty(); assert(diffs(s) =~= Seq::<u64>::empty()); assert(encd(Seq::<u64>::empty()) =~= Seq::<u8>::empty()); assert(is_list(s, 0, index_of(d, l)));
        assert(num_with(d, 0, l, s)); }
}
// position lists encode injectively
pub proof fn uv_head(x: int) requires x >= 0 ensures uv(x).len() > 0, x < 128 ==> uv(x) == seq![x as u8] && uv(x)[0] < 128, x >= 128 ==> uv(x)[0] >= 128 && uv(x)[0] == x % 128 + 128 && uv(x).skip(1) == uv(x / 128)
{ if x >= 128 { assert(uv(x).skip(1) =~= uv(x / 128)); } }
pub proof fn uv_inj(x: int, y: int, a: Seq<u8>, b: Seq<u8>) requires x >= 0, y >= 0, uv(x) + a == uv(y) + b ensures x == y, a == b decreases x
{
    uv_head(x); uv_head(y); assert((uv(x) + a)[0] == uv(x)[0]); assert((uv(y) + b)[0] == uv(y)[0]);
    if x < 128 { assert((uv(x) + a).skip(1) =~= a); assert((uv(y) + b).skip(1) =~= b); }
    else { assert((uv(x) + a).skip(1) =~= uv(x).skip(1) + a); assert((uv(y) + b).skip(1) =~= uv(y).skip(1) + b); uv_inj(x / 128, y / 128, a, b); assert(x == 128 * (x / 128) + x % 128); assert(y == 128 * (y / 128) + y % 128); }
}
pub proof fn encd_inj(a: Seq<u64>, b: Seq<u64>) requires encd(a) == encd(b) ensures a == b decreases a.len()
{
    if a.len() == 0 { encd_empty(b); assert(a =~= b); } else if b.len() == 0 { encd_empty(a); }
    else { uv_inj(a[0] as int, b[0] as int, encd(a.skip(1)), encd(b.skip(1))); encd_inj(a.skip(1), b.skip(1)); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == a[i]); assert(b.skip(1)[i - 1] == b[i]); } } assert(a.len() == b.len()) by { assert(a.skip(1).len() == b.skip(1).len()); } assert(a =~= b); }
}
pub proof fn enc_inj(s: Seq<u64>, t: Seq<u64>) requires nondecr(s), nondecr(t), enc_index(s) == enc_index(t) ensures s == t
{ encd_inj(diffs(s), diffs(t)); diffs_inj(s, t, s.len() as int); assert(s =~= t); }
pub proof fn diffs_inj(s: Seq<u64>, t: Seq<u64>, k: int) requires nondecr(s), nondecr(t), diffs(s) == diffs(t), 0 <= k <= s.len() ensures s.len() == t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i] decreases k
{
    assert(diffs(s).len() == s.len() && diffs(t).len() == t.len());
    if k > 0 {
        diffs_inj(s, t, k - 1); let a = diffs(s)[k - 1]; let b = diffs(t)[k - 1]; assert(a == b);
        if k > 1 { assert(a == (s[k - 1] - s[k - 2]) as u64); assert(b == (t[k - 1] - t[k - 2]) as u64); assert(s[k - 2] <= s[k - 1]); assert(t[k - 2] <= t[k - 1]); assert(s[k - 2] == t[k - 2]); } else { assert(a == s[0]); assert(b == t[0]); }
    }
}
