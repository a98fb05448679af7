//@use hash.vrs
//@use keys.vrs
//@import tmath.vrs
//@nonnil tree/transparency/algorithms.DataProvider tree/transparency/structs.LogEntry tree/transparency/structs.InclusionProof tree/transparency/algorithms.ProofResult
//@typemap tree/transparency/algorithms.ProofHandle Handle Handle::nil()
// ---- C11: what a verifier accepts from a proof handle.
// An Ev is one answer a handle gave. The handle is arbitrary: nothing is
// assumed about the answers, only that an answer that was given is recorded.
pub enum Ev {
    Ts(u64, u64),                              // position, timestamp
    Search(u64, u32, bool, Seq<u8>, int),      // position, target version, omit, prefix root, result
    Mon(u64, u32, Seq<u8>),                    // position, version, prefix root
    Incl(u64, Seq<u32>, Seq<u8>),              // position, versions, prefix root
    Roots(Seq<u64>, Seq<Seq<u8>>),             // positions, prefix roots
}
pub struct Handle { pub nil: Ghost<bool>, pub bad: Ghost<bool>, pub log: Ghost<Seq<Ev>>, pub st: Ghost<int> }
impl Clone for Handle { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Handle {}
impl Handle {
    #[verifier::external_body]
    pub fn is_nil(&self) -> (r: bool) ensures r == self.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn nil() -> (r: Self) ensures r.nil@, r.log@.len() == 0 { unimplemented!() }
}
// whether the handle says that the proof is exhausted, when asked at x
pub uninterp spec fn stops(h: Handle, x: int, greatest: int) -> bool;
// bad: it refused to answer
pub open spec fn said(a: Handle, b: Handle, e: Ev) -> bool { b.nil == a.nil && b.bad == a.bad && b.log@ == a.log@.push(e) }
pub open spec fn silent(a: Handle, b: Handle) -> bool { b.nil == a.nil && b.bad@ && b.log == a.log }
//@ext tree/transparency/algorithms.ProofHandle.GetTimestamp
pub fn h_GetTimestamp(h: &mut Handle, x: u64) -> (r: (u64, Option<GoErr>))
    requires !old(h).nil@
    ensures r.1.is_none() ==> said(*old(h), *final(h), Ev::Ts(x, r.0)), r.1.is_some() ==> silent(*old(h), *final(h))
//@end
//@ext tree/transparency/algorithms.ProofHandle.GetSearchBinaryLadder
pub fn h_GetSearchBinaryLadder(h: &mut Handle, x: u64, ver: u32, omit: bool) -> (r: (Slice<u8>, i64, Option<GoErr>))
    requires !old(h).nil@
    ensures r.2.is_none() ==> said(*old(h), *final(h), Ev::Search(x, ver, omit, r.0@, r.1 as int)), r.2.is_some() ==> silent(*old(h), *final(h))
//@end
//@ext tree/transparency/algorithms.ProofHandle.GetMonitoringBinaryLadder
pub fn h_GetMonitoringBinaryLadder(h: &mut Handle, x: u64, ver: u32) -> (r: (Slice<u8>, Option<GoErr>))
    requires !old(h).nil@
    ensures r.1.is_none() ==> said(*old(h), *final(h), Ev::Mon(x, ver, r.0@)), r.1.is_some() ==> silent(*old(h), *final(h))
//@end
//@ext tree/transparency/algorithms.ProofHandle.GetInclusionProof
pub fn h_GetInclusionProof(h: &mut Handle, x: u64, vers: Slice<u32>) -> (r: (Slice<u8>, Option<GoErr>))
    requires !old(h).nil@
    ensures r.1.is_none() ==> said(*old(h), *final(h), Ev::Incl(x, vers@, r.0@)), r.1.is_some() ==> silent(*old(h), *final(h))
//@end
//@ext tree/transparency/algorithms.ProofHandle.StopCondition
pub fn h_StopCondition(h: Handle, x: u64, greatest: i64) -> (r: bool) requires !h.nil@ ensures r == stops(h, x as int, greatest as int)
//@end

// ---- monotonic timestamps, one prefix root per position
pub open spec fn mono(m: Map<u64, u64>) -> bool { forall|a: u64, b: u64| m.dom().contains(a) && m.dom().contains(b) && a < b ==> #[trigger] m[a] <= #[trigger] m[b] }
pub open spec fn wf(dp: al_DataProvider) -> bool { !dp.timestamps.nil@ && !dp.prefixTrees.nil@ && mono(dp.timestamps@) }
// an answer agrees with what is retained
pub open spec fn kept(dp: al_DataProvider, e: Ev) -> bool {
    match e {
        Ev::Ts(x, t) => dp.timestamps@.dom().contains(x) && dp.timestamps@[x] == t,
        Ev::Search(x, _, _, root, _) => dp.timestamps@.dom().contains(x) && dp.prefixTrees@.dom().contains(x) && dp.prefixTrees@[x]@ == root,
        Ev::Mon(x, _, root) => dp.timestamps@.dom().contains(x) && dp.prefixTrees@.dom().contains(x) && dp.prefixTrees@[x]@ == root,
        Ev::Incl(x, _, root) => dp.timestamps@.dom().contains(x) && dp.prefixTrees@.dom().contains(x) && dp.prefixTrees@[x]@ == root,
        Ev::Roots(xs, rs) => forall|i: int| 0 <= i < xs.len() ==> dp.prefixTrees@.dom().contains(#[trigger] xs[i]) && dp.prefixTrees@[xs[i]]@ == rs[i],
    }
}
// every answer since the handle's log had length k agrees with what is retained
pub open spec fn kept_from(dp: al_DataProvider, k: int) -> bool { forall|i: int| k <= i < dp.handle.log@.len() ==> kept(dp, #[trigger] dp.handle.log@[i]) }
pub open spec fn has_ts(dp: al_DataProvider, x: u64) -> bool { dp.timestamps@.dom().contains(x) }
// b is a after more answers: nothing retained changes or is lost
pub open spec fn ext_of(a: al_DataProvider, b: al_DataProvider) -> bool {
    &&& b.cs == a.cs && b.fullSubtrees == a.fullSubtrees && b.logEntries == a.logEntries && b.handle.nil == a.handle.nil
    &&& (wf(a) ==> wf(b))
    &&& forall|x: u64| #[trigger] a.timestamps@.dom().contains(x) ==> b.timestamps@.dom().contains(x) && b.timestamps@[x] == a.timestamps@[x]
    &&& forall|x: u64| #[trigger] a.prefixTrees@.dom().contains(x) ==> b.prefixTrees@.dom().contains(x) && b.prefixTrees@[x] == a.prefixTrees@[x]
    &&& a.handle.log@.len() <= b.handle.log@.len()
    &&& forall|i: int| 0 <= i < a.handle.log@.len() ==> #[trigger] b.handle.log@[i] == a.handle.log@[i]
}
// ... and all of them agree with what is retained
// nothing but a refused or conflicting answer stops a request
pub open spec fn fails(a: al_DataProvider, b: al_DataProvider) -> bool { b.handle.bad@ || !kept_from(b, a.handle.log@.len() as int) }
pub open spec fn good(a: al_DataProvider, b: al_DataProvider) -> bool { ext_of(a, b) && b.handle.bad == a.handle.bad && kept_from(b, a.handle.log@.len() as int) }
// ... and they were timestamps only
pub open spec fn ts_only(a: al_DataProvider, b: al_DataProvider) -> bool {
    forall|i: int| a.handle.log@.len() <= i < b.handle.log@.len() ==> (#[trigger] b.handle.log@[i]) is Ts
}
pub proof fn good_trans(a: al_DataProvider, b: al_DataProvider, c: al_DataProvider)
    ensures ext_of(a, b) && ext_of(b, c) ==> ext_of(a, c), good(a, b) && good(b, c) ==> good(a, c), ts_only(a, b) && ts_only(b, c) && ext_of(b, c) ==> ts_only(a, c), ext_of(a, b) && fails(b, c) ==> fails(a, c)
{
    if ext_of(a, b) && ext_of(b, c) {
        assert forall|x: u64| #[trigger] a.timestamps@.dom().contains(x) implies c.timestamps@.dom().contains(x) && c.timestamps@[x] == a.timestamps@[x] by { assert(b.timestamps@.dom().contains(x)); }
        assert forall|x: u64| #[trigger] a.prefixTrees@.dom().contains(x) implies c.prefixTrees@.dom().contains(x) && c.prefixTrees@[x] == a.prefixTrees@[x] by { assert(b.prefixTrees@.dom().contains(x)); }
        assert forall|i: int| 0 <= i < a.handle.log@.len() implies #[trigger] c.handle.log@[i] == a.handle.log@[i] by { assert(b.handle.log@[i] == a.handle.log@[i]); }
    }
    if good(a, b) && good(b, c) {
        assert forall|i: int| a.handle.log@.len() <= i < c.handle.log@.len() implies kept(c, #[trigger] c.handle.log@[i]) by {
            if i < b.handle.log@.len() { assert(c.handle.log@[i] == b.handle.log@[i]); kept_ext(b, c, b.handle.log@[i]); } }
    }
    if ts_only(a, b) && ts_only(b, c) && ext_of(b, c) {
        assert forall|i: int| a.handle.log@.len() <= i < c.handle.log@.len() implies (#[trigger] c.handle.log@[i]) is Ts by {
            if i < b.handle.log@.len() { assert(c.handle.log@[i] == b.handle.log@[i]); assert(b.handle.log@[i] is Ts); } }
    }
}
pub proof fn kept_ext(a: al_DataProvider, b: al_DataProvider, e: Ev) requires ext_of(a, b), kept(a, e) ensures kept(b, e)
{ if let Ev::Roots(xs, rs) = e { assert forall|i: int| 0 <= i < xs.len() implies b.prefixTrees@.dom().contains(#[trigger] xs[i]) && b.prefixTrees@[xs[i]]@ == rs[i] by { assert(a.prefixTrees@.dom().contains(xs[i])); } } }
pub proof fn good_refl(a: al_DataProvider) ensures good(a, a), ts_only(a, a) {}

//@go tree/transparency/algorithms.addTimestamp
pub fn al_addTimestamp(m_r: &mut GoMap<u64, u64>, pos1: u64, ts1: u64) -> (r: Option<GoErr>)
    requires !old(m_r).nil@, mono(old(m_r)@)
    ensures !final(m_r).nil@, mono(final(m_r)@),
        r.is_none() ==> !old(m_r)@.dom().contains(pos1) && final(m_r)@ == old(m_r)@.insert(pos1, ts1),
        r.is_some() ==> *final(m_r) == *old(m_r),
        // and nothing acceptable is refused
        r.is_some() ==> old(m_r)@.dom().contains(pos1) || !mono(old(m_r)@.insert(pos1, ts1)),
//@loop 1
    invariant *old(m_r) == collection, !collection.nil@, mono(collection@), MAP == collection, forall|i: int| 0 <= i < SEQ@.len() ==> collection@.dom().contains(#[trigger] SEQ@[i]), forall|k: u64| collection@.dom().contains(k) ==> #[trigger] SEQ@.contains(k),
        forall|i: int| 0 <= i < IDX ==> (#[trigger] SEQ@[i]) != pos1 && (pos1 < SEQ@[i] ==> ts1 <= collection@[SEQ@[i]]) && (pos1 > SEQ@[i] ==> ts1 >= collection@[SEQ@[i]]),
    decreases SEQ@.len() - IDX
//@hint return 2
    proof { let m = old(m_r)@.insert(pos1, ts1); if pos1 < pos2 { assert(m[pos1] > m[pos2]); } else { assert(m[pos2] > m[pos1]); } }
//@hint after loop 1
    proof {
        assert forall|k: u64| collection@.dom().contains(k) implies k != pos1 && (pos1 < k ==> ts1 <= collection@[k]) && (pos1 > k ==> ts1 >= collection@[k]) by { assert(SEQ1@.contains(k)); let i = choose|i: int| 0 <= i < SEQ1@.len() && SEQ1@[i] == k; assert(SEQ1@[i] == k); }
    }
//@end
//@go tree/transparency/algorithms.addPrefixTree
pub fn al_addPrefixTree(m_r: &mut GoMap<u64, Slice<u8>>, pos: u64, root: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(m_r).nil@
    ensures !final(m_r).nil@,
        r.is_none() ==> final(m_r)@ == (if old(m_r)@.dom().contains(pos) { old(m_r)@ } else { old(m_r)@.insert(pos, root) }) && final(m_r)@[pos]@ == root@,
        r.is_some() ==> *final(m_r) == *old(m_r) && old(m_r)@.dom().contains(pos) && old(m_r)@[pos]@ != root@,
//@end
//@go tree/transparency/algorithms.NewDataProvider
pub fn al_NewDataProvider(cs: Suite, handle: Handle) -> (r: al_DataProvider)
    ensures wf(r), r.cs == cs, r.handle == handle, r.timestamps@ == Map::<u64, u64>::empty(), r.prefixTrees@ == Map::<u64, Slice<u8>>::empty(), r.logEntries@ == Map::<u64, st_LogEntry>::empty(),
//@end
pub open spec fn entries_mono(m: Map<u64, st_LogEntry>) -> bool { forall|x: u64, y: u64| m.dom().contains(x) && m.dom().contains(y) && x < y ==> #[trigger] m[x].Timestamp <= #[trigger] m[y].Timestamp }
pub open spec fn joins(a: Map<u64, u64>, p: Map<u64, Slice<u8>>, m: Map<u64, st_LogEntry>) -> bool {
    entries_mono(m) && (forall|x: u64, y: u64| a.dom().contains(x) && #[trigger] m.dom().contains(y) ==> x != y && (x < y ==> #[trigger] a[x] <= m[y].Timestamp) && (y < x ==> m[y].Timestamp <= a[x]))
        && forall|y: u64| #[trigger] m.dom().contains(y) ==> !p.dom().contains(y)
}
//@go tree/transparency/algorithms.DataProvider.AddRetained
pub fn al_AddRetained(dp_r: &mut al_DataProvider, fullSubtrees: Slice<Slice<u8>>, logEntries: GoMap<u64, st_LogEntry>) -> (r: Option<GoErr>)
    requires wf(*old(dp_r)),
    ensures wf(*final(dp_r)), final(dp_r).handle == old(dp_r).handle, final(dp_r).cs == old(dp_r).cs, final(dp_r).fullSubtrees == fullSubtrees, final(dp_r).logEntries == logEntries,
        forall|x: u64| #[trigger] final(dp_r).timestamps@.dom().contains(x) ==> old(dp_r).timestamps@.dom().contains(x) && final(dp_r).timestamps@[x] == old(dp_r).timestamps@[x] || logEntries@.dom().contains(x) && final(dp_r).timestamps@[x] == logEntries@[x].Timestamp,
        forall|x: u64| #[trigger] final(dp_r).prefixTrees@.dom().contains(x) ==> old(dp_r).prefixTrees@.dom().contains(x) && final(dp_r).prefixTrees@[x] == old(dp_r).prefixTrees@[x] || logEntries@.dom().contains(x) && final(dp_r).prefixTrees@[x] == logEntries@[x].PrefixTree,
        forall|x: u64| #[trigger] old(dp_r).timestamps@.dom().contains(x) ==> final(dp_r).timestamps@.dom().contains(x) && final(dp_r).timestamps@[x] == old(dp_r).timestamps@[x],
        r.is_none() ==> (forall|x: u64| #[trigger] logEntries@.dom().contains(x) ==> final(dp_r).timestamps@.dom().contains(x) && final(dp_r).prefixTrees@.dom().contains(x)),
        // nothing acceptable is refused
        joins(old(dp_r).timestamps@, old(dp_r).prefixTrees@, logEntries@) ==> r.is_none(),
//@loop 1
    invariant MAP == logEntries, SEQ@.no_duplicates(), wf(dp), dp.handle == old(dp_r).handle, dp.cs == old(dp_r).cs, dp.fullSubtrees == fullSubtrees, dp.logEntries == logEntries,
        forall|i: int| 0 <= i < SEQ@.len() ==> logEntries@.dom().contains(#[trigger] SEQ@[i]),
        forall|x: u64| #[trigger] dp.timestamps@.dom().contains(x) ==> old(dp_r).timestamps@.dom().contains(x) && dp.timestamps@[x] == old(dp_r).timestamps@[x] || SEQ@.subrange(0, IDX as int).contains(x) && logEntries@.dom().contains(x) && dp.timestamps@[x] == logEntries@[x].Timestamp,
        forall|x: u64| #[trigger] dp.prefixTrees@.dom().contains(x) ==> old(dp_r).prefixTrees@.dom().contains(x) && dp.prefixTrees@[x] == old(dp_r).prefixTrees@[x] || SEQ@.subrange(0, IDX as int).contains(x) && logEntries@.dom().contains(x) && dp.prefixTrees@[x] == logEntries@[x].PrefixTree,
        forall|x: u64| #[trigger] old(dp_r).timestamps@.dom().contains(x) ==> dp.timestamps@.dom().contains(x) && dp.timestamps@[x] == old(dp_r).timestamps@[x],
        forall|i: int| 0 <= i < IDX ==> dp.timestamps@.dom().contains(#[trigger] SEQ@[i]) && dp.prefixTrees@.dom().contains(SEQ@[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { assert(SEQ1@.subrange(0, IDX1 as int) =~= SEQ1@.subrange(0, IDX1 - 1).push(pos)); let a = SEQ1@.subrange(0, IDX1 - 1);
        assert forall|x: u64| a.contains(x) implies a.push(pos).contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a.push(pos)[i] == x); }
        assert(a.push(pos)[a.len() as int] == pos);
        if a.contains(pos) { let i = choose|i: int| 0 <= i < a.len() && a[i] == pos; assert(SEQ1@[i] == SEQ1@[IDX1 - 1]); } }
//@hint after loop 1
    proof { assert forall|x: u64| #[trigger] logEntries@.dom().contains(x) implies dp.timestamps@.dom().contains(x) && dp.prefixTrees@.dom().contains(x) by { let i = choose|i: int| 0 <= i < SEQ1@.len() && SEQ1@[i] == x; assert(SEQ1@[i] == x); } }
//@end
//@go tree/transparency/algorithms.DataProvider.GetTimestamp
pub fn al_GetTimestamp(dp_r: &mut al_DataProvider, x: u64) -> (r: (u64, Option<GoErr>))
    requires wf(*old(dp_r)), has_ts(*old(dp_r), x) || !old(dp_r).handle.nil@
    ensures ext_of(*old(dp_r), *final(dp_r)), ts_only(*old(dp_r), *final(dp_r)), final(dp_r).prefixTrees == old(dp_r).prefixTrees,
        r.1.is_none() ==> good(*old(dp_r), *final(dp_r)) && has_ts(*final(dp_r), x) && final(dp_r).timestamps@[x] == r.0,
        has_ts(*old(dp_r), x) ==> r.1.is_none() && *final(dp_r) == *old(dp_r),
        // nothing is asked twice
        r.1.is_none() ==> final(dp_r).timestamps@.dom() == old(dp_r).timestamps@.dom().insert(x),
        r.1.is_some() ==> final(dp_r).timestamps == old(dp_r).timestamps && fails(*old(dp_r), *final(dp_r)),
//@hint after call al_addTimestamp 1
    proof { let k = dp.handle.log@.len() - 1; if RES.is_some() { assert(!kept(dp, dp.handle.log@[k])); } }
//@end
// what a ladder request does: it asks for the position's timestamp, then for
// the ladder e
pub open spec fn asked(a: al_DataProvider, b: al_DataProvider, e: Ev) -> bool {
    &&& good(a, b) && b.handle.log@.len() > a.handle.log@.len() && b.handle.log@.last() == e
    &&& forall|i: int| a.handle.log@.len() <= i < b.handle.log@.len() - 1 ==> (#[trigger] b.handle.log@[i]) is Ts
}
pub open spec fn root_at(b: al_DataProvider, x: u64) -> Seq<u8> { b.prefixTrees@[x]@ }
//@go tree/transparency/algorithms.DataProvider.GetSearchBinaryLadder
pub fn al_GetSearchBinaryLadder(dp_r: &mut al_DataProvider, x: u64, ver: u32, omit: bool) -> (r: (i64, Option<GoErr>))
    requires wf(*old(dp_r)), !old(dp_r).handle.nil@
    ensures ext_of(*old(dp_r), *final(dp_r)),
        r.1.is_none() ==> asked(*old(dp_r), *final(dp_r), Ev::Search(x, ver, omit, root_at(*final(dp_r), x), r.0 as int)) && has_ts(*final(dp_r), x),
        r.1.is_some() ==> fails(*old(dp_r), *final(dp_r)),
//@hint after call al_addPrefixTree 1
    proof { let k = dp.handle.log@.len() - 1; if RES.is_some() { assert(!kept(dp, dp.handle.log@[k])); } }
//@end
//@go tree/transparency/algorithms.DataProvider.GetMonitoringBinaryLadder
pub fn al_GetMonitoringBinaryLadder(dp_r: &mut al_DataProvider, x: u64, ver: u32) -> (r: Option<GoErr>)
    requires wf(*old(dp_r)), !old(dp_r).handle.nil@
    ensures ext_of(*old(dp_r), *final(dp_r)),
        r.is_none() ==> asked(*old(dp_r), *final(dp_r), Ev::Mon(x, ver, root_at(*final(dp_r), x))) && has_ts(*final(dp_r), x),
        r.is_some() ==> fails(*old(dp_r), *final(dp_r)),
//@hint after call al_addPrefixTree 1
    proof { let k = dp.handle.log@.len() - 1; if RES.is_some() { assert(!kept(dp, dp.handle.log@[k])); } }
//@end
//@go tree/transparency/algorithms.DataProvider.GetInclusionProof
pub fn al_GetInclusionProof(dp_r: &mut al_DataProvider, x: u64, vers: Slice<u32>) -> (r: Option<GoErr>)
    requires wf(*old(dp_r)), !old(dp_r).handle.nil@
    ensures ext_of(*old(dp_r), *final(dp_r)),
        r.is_none() && vers@.len() > 0 ==> asked(*old(dp_r), *final(dp_r), Ev::Incl(x, vers@, root_at(*final(dp_r), x))) && has_ts(*final(dp_r), x),
        r.is_some() ==> fails(*old(dp_r), *final(dp_r)),
        vers@.len() == 0 ==> r.is_none() && *final(dp_r) == *old(dp_r),
//@hint after call al_addPrefixTree 1
    proof { let k = dp.handle.log@.len() - 1; if RES.is_some() { assert(!kept(dp, dp.handle.log@[k])); } }
//@end
//@go tree/transparency/algorithms.DataProvider.StopCondition
pub fn al_StopCondition(dp: al_DataProvider, x: u64, ver: i64) -> (r: bool) requires !dp.handle.nil@ ensures r == stops(dp.handle, x as int, ver as int)
//@end
