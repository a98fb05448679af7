// ---- the versions whose VRF proofs an update needs
pub open spec fn needs(a: u32, b: u32, v: u32) -> bool { (full_ladder(b).contains(v) || a <= v < b) && (if a == 0 { v != 0 } else { !full_ladder((a - 1) as u32).contains(v) }) }
//@go tree/transparency.updateLadderVersions
pub fn tr_updateLadderVersions(startVer: u32, endVer: u32) -> (r: Slice<u32>)
    ensures forall|v: u32| #[trigger] r@.contains(v) <==> needs(startVer, endVer, v), r@.no_duplicates(), forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] <= r@[j]
//@hint entry
    let ghost mut d0 = Map::<u32, ()>::empty();
    proof { assert(Set::<u32>::empty().union(Set::<u32>::empty()) =~= Set::<u32>::empty()); }
//@hint before mapstore 1
    proof { among_step(full_ladder(endVer), IDX1 - 1); }
//@loop 1
    invariant SEQ@ == full_ladder(endVer), IDX <= SEQ@.len(), !dedup.nil@, forall|v: u32| #[trigger] dedup@.dom().contains(v) <==> among(SEQ@, IDX as int, v)
//@hint after loop 1
    proof { among_all(full_ladder(endVer)); }
//@loop 2
    invariant startVer <= ver, !dedup.nil@, startVer < endVer ==> ver <= endVer, startVer >= endVer ==> ver == startVer, forall|v: u32| #[trigger] dedup@.dom().contains(v) <==> full_ladder(endVer).contains(v) || startVer <= v < ver
    decreases endVer - ver
//@hint after loop 2
    proof { d0 = dedup@; assert forall|v: u32| #[trigger] d0.dom().contains(v) <==> full_ladder(endVer).contains(v) || startVer <= v < endVer by {} }
//@hint before delete 2
    proof { among_step(full_ladder((startVer - 1) as u32), IDX3 - 1); }
//@loop 3
    invariant startVer > 0, SEQ@ == full_ladder((startVer - 1) as u32), IDX <= SEQ@.len(), !dedup.nil@, forall|v: u32| #[trigger] dedup@.dom().contains(v) <==> d0.dom().contains(v) && !among(SEQ@, IDX as int, v),
        forall|v: u32| #[trigger] d0.dom().contains(v) <==> full_ladder(endVer).contains(v) || startVer <= v < endVer,
//@hint after loop 3
    proof { among_all(full_ladder((startVer - 1) as u32)); }
//@hint before loop 4
    proof { assert forall|v: u32| #[trigger] dedup@.dom().contains(v) <==> needs(startVer, endVer, v) by {} }
//@loop 4
    invariant MAP == dedup, SEQ@.no_duplicates(), IDX <= SEQ@.len(), versions@ =~= SEQ@.subrange(0, IDX as int), forall|x: u32| #[trigger] dedup@.dom().contains(x) ==> SEQ@.contains(x), forall|i: int| 0 <= i < SEQ@.len() ==> dedup@.dom().contains(#[trigger] SEQ@[i]),
        forall|v: u32| #[trigger] dedup@.dom().contains(v) <==> needs(startVer, endVer, v),
    decreases SEQ@.len() - IDX
//@hint after loop 4
    proof { assert(versions@ =~= SEQ4@); assert forall|v: u32| #[trigger] versions@.contains(v) <==> needs(startVer, endVer, v) by { assert(needs(startVer, endVer, v) <==> dedup@.dom().contains(v)); if versions@.contains(v) { let i = choose|i: int| 0 <= i < versions@.len() && versions@[i] == v; assert(dedup@.dom().contains(SEQ4@[i])); } } }
//@end
pub proof fn among_step(l: Seq<u32>, k: int) requires 0 <= k < l.len() ensures forall|v: u32| among(l, k + 1, v) <==> #[trigger] among(l, k, v) || v == l[k]
{ assert forall|v: u32| among(l, k + 1, v) <==> #[trigger] among(l, k, v) || v == l[k] by { if among(l, k, v) { let j = choose|j: int| 0 <= j < k && #[trigger] l[j] == v; assert(0 <= j < k + 1 && l[j] == v); } if among(l, k + 1, v) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] l[j] == v; assert(j == k || among(l, k, v)); } if v == l[k] { assert(0 <= k < k + 1 && l[k] == v); } } }
pub proof fn among_all(l: Seq<u32>) ensures forall|v: u32| #[trigger] among(l, l.len() as int, v) <==> l.contains(v) {}
