//@use psr.vrs tmath.vrs
// ---- binary ladders (C08) and lookup omission (C09)
//@nonnil tree/prefix.PrefixProof tree/transparency/math.VersionTracker

pub open spec fn powm(i: nat) -> u32 { (pw(i) - 1) as u32 }
pub open spec fn powsq(k: nat) -> Seq<u32> { Seq::new(k, |i: int| powm(i as nat)) }
pub open spec fn ptop(n: u32, j: nat) -> nat decreases 33 - j { if j >= 33 || pw(j) - 1 > n { j } else { ptop(n, (j + 1) as nat) } }
pub open spec fn bis(lo: int, hi: int, n: int) -> Seq<u32> decreases hi - lo {
    if lo + 1 < hi {
        let m = lo + (hi - lo) / 2;
        seq![m as u32] + (if m <= n { bis(m, hi, n) } else { bis(lo, m, n) })
    } else { Seq::empty() }
}
// the full binary ladder for target n
pub open spec fn bladder(n: u32) -> Seq<u32> {
    if n == u32::MAX { powsq(33) } else { let j = ptop(n, 0); powsq(j + 1) + bis(pw((j - 1) as nat) - 1, pw(j) - 1, n as int) }
}

pub proof fn pw33() ensures pw(32) == 0x1_0000_0000, pw(0) == 1, pw(1) == 2
{ assert(pw(32) == 0x1_0000_0000) by(compute); assert(pw(1) == 2 && pw(0) == 1) by(compute); }
pub proof fn pow32(k: u32) requires k < 32 ensures (1u32 << k) == pw(k as nat), pw(k as nat) <= 0x8000_0000 decreases k
{
    if k == 0 { assert(1u32 << 0u32 == 1) by(bit_vector); }
    else { pow32((k - 1) as u32); assert((1u32 << k) == 2 * (1u32 << ((k - 1) as u32)) && (1u32 << ((k - 1) as u32)) <= 0x4000_0000) by(bit_vector) requires 0 < k < 32; }
}
pub proof fn ptop_props(n: u32, i: nat)
    requires n < u32::MAX, i <= 32, i >= 1 ==> pw((i - 1) as nat) - 1 <= n
    ensures ({ let j = ptop(n, i); i <= j <= 32 && pw(j) - 1 > n && (j >= 1 ==> pw((j - 1) as nat) - 1 <= n) && (i == 0 ==> j >= 1) })
    decreases 33 - i
{
    pw33(); pw_pos(i);
    if i < 32 && pw(i) - 1 <= n { ptop_props(n, (i + 1) as nat); }
}
pub proof fn bis_props(lo: int, hi: int, n: int)
    requires 0 <= lo <= n < hi <= u32::MAX
    ensures ({ let b = bis(lo, hi, n);
        &&& forall|i: int| 0 <= i < b.len() ==> lo < #[trigger] b[i] < hi
        &&& b.no_duplicates()
        &&& n == lo || b.contains(n as u32)
        &&& n + 1 == hi || b.contains((n + 1) as u32)
        &&& forall|i: int, j: int| 0 <= i < j < b.len() && b[i] <= n && b[j] <= n ==> b[i] < b[j] })
    decreases hi - lo
{
    if lo + 1 < hi {
        let m = lo + (hi - lo) / 2;
        let r = if m <= n { bis(m, hi, n) } else { bis(lo, m, n) };
        if m <= n { bis_props(m, hi, n); } else { bis_props(lo, m, n); }
        let b = bis(lo, hi, n);
        assert(b == seq![m as u32] + r);
        assert forall|i: int| 0 <= i < b.len() implies lo < #[trigger] b[i] < hi by { if i > 0 { assert(b[i] == r[i - 1]); } };
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] != b[j] by { assert(b[j] == r[j - 1]); if i > 0 { assert(b[i] == r[i - 1]); } };
        assert forall|i: int, j: int| 0 <= i < j < b.len() && b[i] <= n && b[j] <= n implies b[i] < b[j] by { assert(b[j] == r[j - 1]); if i > 0 { assert(b[i] == r[i - 1]); } };
        assert(b[0] == m);
        if r.contains(n as u32) { let k = choose|k: int| 0 <= k < r.len() && r[k] == n as u32; assert(b[k + 1] == n as u32); }
        if r.contains((n + 1) as u32) { let k = choose|k: int| 0 <= k < r.len() && r[k] == (n + 1) as u32; assert(b[k + 1] == (n + 1) as u32); }
    }
}
pub proof fn bis_len(lo: int, hi: int, n: int, k: nat) requires 0 <= lo, hi - lo <= pw(k) ensures bis(lo, hi, n).len() <= k decreases k
{
    pw_pos(k);
    if lo + 1 < hi {
        if k == 0 { assert(pw(0) == 1); }
        pw_pos((k - 1) as nat);
        let m = lo + (hi - lo) / 2;
        if m <= n { bis_len(m, hi, n, (k - 1) as nat); } else { bis_len(lo, m, n, (k - 1) as nat); }
    }
}
pub proof fn powsq_props(k: nat) requires k <= 33 ensures forall|i: int, j: int| 0 <= i < j < k ==> powsq(k)[i] < powsq(k)[j], forall|i: int| 0 <= i < k ==> #[trigger] powsq(k)[i] == pw(i as nat) - 1
{
    pw33();
    assert forall|i: int| 0 <= i < k implies #[trigger] powsq(k)[i] == pw(i as nat) - 1 by { pw_pos(i as nat); pw_mono(i as nat, 32); };
    assert forall|i: int, j: int| 0 <= i < j < k implies powsq(k)[i] < powsq(k)[j] by { pw_mono(i as nat, j as nat); pw_pos(i as nat); };
}
// C08: the ladder is short, starts at version 0, looks nothing up twice, and
// contains the target and the version after it
pub proof fn bladder_props(t: u32)
    ensures bladder(t).len() <= 65, bladder(t).len() >= 1, bladder(t)[0] == 0, bladder(t).no_duplicates(), bladder(t).contains(t), t < u32::MAX ==> bladder(t).contains((t + 1) as u32),
        forall|i: int, j: int| 0 <= i < j < bladder(t).len() && bladder(t)[i] <= t && bladder(t)[j] <= t ==> bladder(t)[i] < bladder(t)[j],
{
    pw33(); powsq_props(33);
    let b = bladder(t);
    if t == u32::MAX { assert(b[32] == t); assert(b[0] == 0); }
    else {
        ptop_props(t, 0);
        let j = ptop(t, 0);
        pw_pos(j); pw_mono(j, 32); pw_mono((j - 1) as nat, j);
        let lo = pw((j - 1) as nat) - 1; let hi = pw(j) - 1;
        powsq_props(j + 1);
        let p = powsq(j + 1); let q = bis(lo, hi, t as int);
        assert(b == p + q);
        bis_props(lo, hi, t as int);
        bis_len(lo, hi, t as int, (j - 1) as nat);
        assert(p[j as int] == hi && p[j - 1] == lo && p[0] == 0);
        assert forall|i: int| 0 <= i < b.len() implies (i <= j ==> b[i] == pw(i as nat) - 1) && (i > j ==> b[i] == q[i - j - 1] && lo < b[i] < hi) by {};
        assert forall|i: int, k: int| 0 <= i < k < b.len() implies b[i] != b[k] by {
            if i <= j && k > j { if i <= j - 1 { pw_mono(i as nat, (j - 1) as nat); } }
        };
        assert forall|i: int, k: int| 0 <= i < k < b.len() && b[i] <= t && b[k] <= t implies b[i] < b[k] by {
            if i <= j && k > j { if i <= j - 1 { pw_mono(i as nat, (j - 1) as nat); } }
        };
        if t == lo { assert(b[j - 1] == t); } else { let k = choose|k: int| 0 <= k < q.len() && q[k] == t; assert(b[k + j + 1] == t); }
        if t + 1 == hi { assert(b[j as int] == t + 1); } else { let k = choose|k: int| 0 <= k < q.len() && q[k] == (t + 1) as u32; assert(b[k + j + 1] == t + 1); }
    }
}

pub proof fn ladder_step(k: nat, n: u32) requires k <= 32
    ensures k < 32 ==> (1u32 << (k as u32)) == pw(k), 1 <= pw(k) <= 0x1_0000_0000, powsq(k + 1) =~= powsq(k).push(powm(k)), powm(k) == pw(k) - 1,
        k == 32 ==> pw(k) == 0x1_0000_0000,
        n < u32::MAX ==> ptop(n, k) == (if pw(k) - 1 > n { k } else { ptop(n, (k + 1) as nat) }), ptop(n, 33) == 33,
        n < u32::MAX && k == 32 ==> pw(k) - 1 > n, pw(0) == 1,
{
    pw33(); pw_pos(k); pw_mono(k, 32); powsq_props(33);
    if k < 32 { pow32(k as u32); }
    assert(powsq(33)[k as int] == pw(k) - 1);
}
pub proof fn ladder_split(n: u32, j: nat) requires n < u32::MAX, ptop(n, 0) == j
    ensures 1 <= j <= 32, powsq(j + 1)[j as int] == pw(j) - 1, powsq(j + 1)[j - 1] == pw((j - 1) as nat) - 1, pw((j - 1) as nat) - 1 <= n < pw(j) - 1,
        bladder(n) == powsq(j + 1) + bis(pw((j - 1) as nat) - 1, pw(j) - 1, n as int), powsq(j + 1).len() == j + 1
{ ptop_props(n, 0); powsq_props(j + 1); pw_pos(j); }

//@go tree/transparency/math.baseBinaryLadder
//@attr #[verifier::allow_complex_invariants]
//@attr wrap
pub fn tm_baseBinaryLadder(n: u32) -> (r: Slice<u32>)
    ensures r@ == bladder(n), !r.nil@, r@.len() <= 65
//@hint entry
    let ghost mut j = 0int;
    proof { pw33(); bladder_props(n); }
//@loop 1
    invariant_except_break out@.len() <= 32, out@.len() >= 1 ==> pw((out@.len() - 1) as nat) - 1 <= n,
        n < u32::MAX ==> ptop(n, 0) == ptop(n, out@.len()),
    invariant out@ =~= powsq(out@.len()), !out.nil@,
    ensures 1 <= out@.len() <= 33, n < u32::MAX, ptop(n, 0) == out@.len() - 1,
    decreases 40 - out@.len()
//@hint loop 1 top
    proof { ladder_step(out@.len(), n); }
//@hint after loop 1
    proof { j = out@.len() - 1; ladder_split(n, j as nat); }
//@loop 2
    invariant lowerBound <= n < upperBound, !out.nil@, bladder(n) =~= out@ + bis(lowerBound as int, upperBound as int, n as int),
    decreases upperBound - lowerBound
//@end

pub open spec fn lstops(v: u32, t: u32, g: int) -> bool { (v <= g && v > t) || (v > g && v <= t) }
// the lookups of a search ladder when the greatest version is g
pub open spec fn sl(b: Seq<u32>, t: u32, g: int, skip: Set<u32>) -> Seq<u32> decreases b.len() {
    if b.len() == 0 { Seq::empty() }
    else {
        let h = if skip.contains(b[0]) { Seq::<u32>::empty() } else { seq![b[0]] };
        if lstops(b[0], t, g) { h } else { h + sl(b.drop_first(), t, g, skip) }
    }
}
// the outcome a verifier reads from results (None: malformed)
pub open spec fn interp(l: Seq<u32>, t: u32, res: Seq<PSR>) -> Option<int> decreases l.len() {
    if l.len() == 0 { if res.len() == 0 { Some(0int) } else { None } }
    else if res.len() == 0 { None }
    else if psr_incl(res[0]) && l[0] > t { if res.len() == 1 { Some(1int) } else { None } }
    else if !psr_incl(res[0]) && l[0] <= t { if res.len() == 1 { Some(-1int) } else { None } }
    else { interp(l.drop_first(), t, res.drop_first()) }
}
pub proof fn interp_len(l: Seq<u32>, t: u32, res: Seq<PSR>) requires res.len() > l.len() ensures interp(l, t, res).is_none() decreases l.len()
{ if l.len() > 0 { interp_len(l.drop_first(), t, res.drop_first()); } }

//@go tree/transparency/math.SearchBinaryLadder
//@attr #[verifier::allow_complex_invariants]
pub fn tm_SearchBinaryLadder(t: u32, n: u32, leftInclusion: GoMap<u32, ()>, rightNonInclusion: GoMap<u32, ()>) -> (r: Slice<u32>)
    ensures r@ == sl(bladder(t), t, n as int, leftInclusion@.dom().union(rightNonInclusion@.dom())), !r.nil@, r@.len() <= 65
//@hint entry
    let ghost skip = leftInclusion@.dom().union(rightNonInclusion@.dom());
    proof { bladder_props(t); sl_sub(bladder(t), t, n as int, skip); assert(bladder(t).subrange(0, bladder(t).len() as int) =~= bladder(t)); }
//@loop 1
    invariant_except_break sl(bladder(t), t, n as int, skip) =~= out@ + sl(SEQ@.subrange(IDX as int, SEQ@.len() as int), t, n as int, skip),
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == bladder(t), !out.nil@,
    ensures out@ =~= sl(bladder(t), t, n as int, skip),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let s = SEQ@.subrange(IDX - 1, SEQ@.len() as int); assert(s.drop_first() =~= SEQ@.subrange(IDX as int, SEQ@.len() as int)); assert(s[0] == v); }
//@end
pub proof fn sl_sub(b: Seq<u32>, t: u32, g: int, skip: Set<u32>)
    ensures sl(b, t, g, skip).len() <= b.len(), forall|i: int| 0 <= i < sl(b, t, g, skip).len() ==> b.contains(#[trigger] sl(b, t, g, skip)[i]) && !skip.contains(sl(b, t, g, skip)[i])
    decreases b.len()
{
    if b.len() > 0 {
        let r = sl(b.drop_first(), t, g, skip); let l = sl(b, t, g, skip);
        sl_sub(b.drop_first(), t, g, skip);
        assert forall|i: int| 0 <= i < l.len() implies b.contains(#[trigger] l[i]) && !skip.contains(l[i]) by {
            let o = if skip.contains(b[0]) { 0int } else { 1int };
            if i >= o { assert(l[i] == r[i - o]); let k = choose|k: int| 0 <= k < b.drop_first().len() && b.drop_first()[k] == r[i - o]; assert(b[k + 1] == l[i]); } else { assert(l[i] == b[0]); }
        };
    }
}
// C08: no version is looked up twice
pub proof fn prop_sl_nodup(b: Seq<u32>, t: u32, g: int, skip: Set<u32>) requires b.no_duplicates() ensures sl(b, t, g, skip).no_duplicates() decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_first();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies d[i] != d[j] by {};
        prop_sl_nodup(d, t, g, skip); sl_sub(d, t, g, skip);
        let l = sl(b, t, g, skip); let r = sl(d, t, g, skip);
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies l[i] != l[j] by {
            if !lstops(b[0], t, g) {
                let o = if skip.contains(b[0]) { 0int } else { 1int };
                assert(l[j] == r[j - o]);
                if i >= o { assert(l[i] == r[i - o]); } else { assert(d.contains(r[j - o])); let k = choose|k: int| 0 <= k < d.len() && d[k] == r[j - o]; assert(b[k + 1] == l[j]); }
            }
        };
    }
}

//@go tree/transparency/math.MonitoringBinaryLadder
pub fn tm_MonitoringBinaryLadder(t: u32) -> (r: Slice<u32>)
    ensures r@ == mladder(t), r@.len() >= 1, r@.len() <= 65, r@.last() == t, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] <= t, forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] < r@[j], !r.nil@
//@hint entry
    proof { bladder_props(t); mlad_props(t); }
//@loop 1
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == bladder(t), !out.nil@, mladder(t) =~= out@ + ml(SEQ@.subrange(IDX as int, SEQ@.len() as int), t),
    decreases SEQ@.len() - IDX
//@hint before loop 1
    proof { assert(bladder(t).subrange(0, bladder(t).len() as int) =~= bladder(t)); }
//@hint loop 1 top
    proof { let s = SEQ@.subrange(IDX - 1, SEQ@.len() as int); assert(s.drop_first() =~= SEQ@.subrange(IDX as int, SEQ@.len() as int)); assert(s[0] == v); }
//@end
pub open spec fn ml(b: Seq<u32>, t: u32) -> Seq<u32> decreases b.len() { if b.len() == 0 { Seq::empty() } else { (if b[0] <= t { seq![b[0]] } else { Seq::empty() }) + ml(b.drop_first(), t) } }
pub open spec fn mladder(t: u32) -> Seq<u32> { ml(bladder(t), t) }
pub proof fn ml_props(b: Seq<u32>, t: u32)
    requires forall|i: int, j: int| 0 <= i < j < b.len() && b[i] <= t && b[j] <= t ==> b[i] < b[j]
    ensures ml(b, t).len() <= b.len(), forall|i: int, j: int| 0 <= i < j < ml(b, t).len() ==> ml(b, t)[i] < ml(b, t)[j], forall|i: int| 0 <= i < ml(b, t).len() ==> #[trigger] ml(b, t)[i] <= t && b.contains(ml(b, t)[i]),
        forall|v: u32| v <= t && #[trigger] b.contains(v) ==> ml(b, t).contains(v)
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_first();
        assert forall|i: int, j: int| 0 <= i < j < d.len() && d[i] <= t && d[j] <= t implies d[i] < d[j] by { assert(d[i] == b[i + 1] && d[j] == b[j + 1]); };
        ml_props(d, t);
        let l = ml(b, t); let r = ml(d, t); let o = if b[0] <= t { 1int } else { 0int };
        assert(l == (if b[0] <= t { seq![b[0]] } else { Seq::empty() }) + r);
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] <= t && b.contains(l[i]) by { if i >= o { assert(l[i] == r[i - o]); let k = choose|k: int| 0 <= k < d.len() && d[k] == r[i - o]; assert(b[k + 1] == l[i]); } else { assert(l[i] == b[0]); } };
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies l[i] < l[j] by { assert(l[j] == r[j - o]); if i >= o { assert(l[i] == r[i - o]); } else { assert(d.contains(r[j - o])); let k = choose|k: int| 0 <= k < d.len() && d[k] == r[j - o]; assert(b[k + 1] == l[j]); } };
        assert forall|v: u32| v <= t && #[trigger] b.contains(v) implies l.contains(v) by { let k = choose|k: int| 0 <= k < b.len() && b[k] == v; if k == 0 { assert(l[0] == v); } else { assert(d[k - 1] == v); assert(d.contains(v)); assert(r.contains(v)); let q = choose|q: int| 0 <= q < r.len() && r[q] == v; assert(l[q + o] == v); } };
    }
}
pub proof fn mlad_props(t: u32)
    ensures mladder(t).len() >= 1, mladder(t).len() <= 65, mladder(t).last() == t, forall|i: int, j: int| 0 <= i < j < mladder(t).len() ==> mladder(t)[i] < mladder(t)[j], forall|i: int| 0 <= i < mladder(t).len() ==> #[trigger] mladder(t)[i] <= t
{
    bladder_props(t); ml_props(bladder(t), t);
    let m = mladder(t);
    assert(m.contains(t)); let k = choose|k: int| 0 <= k < m.len() && m[k] == t;
    if k < m.len() - 1 { assert(m[k] < m[m.len() - 1]); }
}

//@go tree/transparency/math.InterpretSearchLadder
pub fn tm_InterpretSearchLadder(ladder: Slice<u32>, target: u32, proof_: px_PrefixProof) -> (r: (i64, Option<GoErr>))
    requires psr_nn(proof_.Results@)
    ensures r.1.is_none() == interp(ladder@, target, proof_.Results@).is_some(),
        r.1.is_none() ==> r.0 == interp(ladder@, target, proof_.Results@).unwrap() && proof_.Results@.len() <= ladder@.len() && -1 <= r.0 <= 1,
//@hint entry
    let ghost l = ladder@; let ghost rs = proof_.Results@;
    proof { if rs.len() > l.len() { interp_len(l, target, rs); } assert(l.subrange(0, l.len() as int) =~= l); assert(rs.subrange(0, rs.len() as int) =~= rs); }
//@loop 1
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == l, ladder@ == l, proof_.Results@ == rs, IDX <= rs.len() <= l.len(), psr_nn(rs),
        interp(l, target, rs) == interp(l.subrange(IDX as int, l.len() as int), target, rs.subrange(IDX as int, rs.len() as int)),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let a = l.subrange(IDX - 1, l.len() as int); assert(a.drop_first() =~= l.subrange(IDX as int, l.len() as int)); assert(a[0] == version);
        let b = rs.subrange(IDX - 1, rs.len() as int); if b.len() > 0 { assert(b.drop_first() =~= rs.subrange(IDX as int, rs.len() as int)); assert(b[0] == rs[IDX - 1]); assert(!(rs[IDX - 1] is Nil)); } }
//@end

// results of real lookups in a tree whose greatest version is g
pub open spec fn honest(l: Seq<u32>, g: int, res: Seq<PSR>) -> bool { res.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> psr_incl(#[trigger] res[i]) == (l[i] <= g) }
pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x > 0 { 1 } else { 0 } }
pub open spec fn skip_ok(skip: Set<u32>, t: u32, g: int) -> bool { forall|v: u32| #[trigger] skip.contains(v) ==> !lstops(v, t, g) }

pub proof fn ladder_agree(b: Seq<u32>, t: u32, g: int, skip: Set<u32>, res: Seq<PSR>)
    requires skip_ok(skip, t, g), honest(sl(b, t, g, skip), g, res), g >= -1
    ensures ({ let p = sl(b, t, g, skip); let c = sl(b, t, t as int, skip);
        &&& p.len() <= c.len() && p =~= c.subrange(0, p.len() as int)
        &&& (exists|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g)) ==> interp(c, t, res) == Some(sgn(g - t))
        &&& !(exists|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g)) ==> interp(c, t, res) == Some(0int) && p == c })
    decreases b.len()
{
    let p = sl(b, t, g, skip); let c = sl(b, t, t as int, skip);
    if b.len() > 0 {
        let d = b.drop_first();
        let p1 = sl(d, t, g, skip); let c1 = sl(d, t, t as int, skip);
        if lstops(b[0], t, g) {
            assert(!skip.contains(b[0]));
            assert(p == seq![b[0]]);
            assert(c == seq![b[0]] + c1);
            assert(psr_incl(res[0]) == (b[0] <= g));
        } else {
            let o = if skip.contains(b[0]) { 0int } else { 1int };
            let res1 = res.subrange(o, res.len() as int);
            assert forall|i: int| 0 <= i < p1.len() implies psr_incl(#[trigger] res1[i]) == (p1[i] <= g) by { assert(res1[i] == res[i + o]); assert(p[i + o] == p1[i]); };
            ladder_agree(d, t, g, skip, res1);
            if o == 0 { assert(res1 =~= res); assert(p =~= p1 && c =~= c1); }
            else {
                assert(p == seq![b[0]] + p1 && c == seq![b[0]] + c1);
                assert(c.drop_first() =~= c1);
                assert(res.drop_first() =~= res1);
                assert(psr_incl(res[0]) == (b[0] <= g)) by { assert(p[0] == b[0]); };
            }
            if exists|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g) { let i = choose|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g); assert(d[i - 1] == b[i]); }
            if exists|i: int| 0 <= i < d.len() && lstops(#[trigger] d[i], t, g) { let i = choose|i: int| 0 <= i < d.len() && lstops(#[trigger] d[i], t, g); assert(b[i + 1] == d[i]); }
        }
    }
}
// C08 and C09: when no omitted lookup would have ended the ladder, the
// server's lookups are the beginning of the list the client computes, and
// the outcome the client reads is the comparison of g with the target.
pub proof fn prop_ladder(t: u32, g: int, skip: Set<u32>, res: Seq<PSR>)
    requires skip_ok(skip, t, g), -1 <= g <= u32::MAX, honest(sl(bladder(t), t, g, skip), g, res)
    ensures ({ let p = sl(bladder(t), t, g, skip); let c = sl(bladder(t), t, t as int, skip);
        &&& p.len() <= c.len() && p =~= c.subrange(0, p.len() as int)
        &&& interp(c, t, res) == Some(sgn(g - t))
        &&& g == -1 ==> p =~= seq![0u32] })
{
    let b = bladder(t);
    bladder_props(t);
    ladder_agree(b, t, g, skip, res);
    if g < t { let k = choose|k: int| 0 <= k < b.len() && b[k] == t; assert(lstops(b[k], t, g)); }
    if g > t { let k = choose|k: int| 0 <= k < b.len() && b[k] == (t + 1) as u32; assert(lstops(b[k], t, g)); }
    if g == t { assert forall|i: int| 0 <= i < b.len() implies !lstops(#[trigger] b[i], t, g) by {}; }
    if g == -1 { assert(lstops(b[0], t, g)); assert(!skip.contains(b[0])); }
}
// What a verified ladder shows (soundness): if every result tells whether its
// version exists, versions exist exactly up to the greatest one, and omitted
// lookups were implied, then the outcome read is right.
pub proof fn prop_interp_sound(t: u32, g: int, skip: Set<u32>, res: Seq<PSR>)
    requires -1 <= g <= u32::MAX, skip_ok(skip, t, g), interp(sl(bladder(t), t, t as int, skip), t, res).is_some(),
        forall|i: int| 0 <= i < res.len() && i < sl(bladder(t), t, t as int, skip).len() ==> psr_incl(#[trigger] res[i]) == (sl(bladder(t), t, t as int, skip)[i] <= g),
    ensures interp(sl(bladder(t), t, t as int, skip), t, res) == Some(sgn(g - t))
{
    bladder_props(t);
    let b = bladder(t);
    ladder_sound_at(b, t, g, skip, res);
    let c = sl(b, t, t as int, skip);
    if g != t {
        let v = if g < t { t } else { (t + 1) as u32 };
        let k = choose|k: int| 0 <= k < b.len() && b[k] == v; assert(lstops(b[k], t, g));
    }
}
pub proof fn ladder_sound_at(b: Seq<u32>, t: u32, g: int, skip: Set<u32>, res: Seq<PSR>)
    requires skip_ok(skip, t, g), interp(sl(b, t, t as int, skip), t, res).is_some(),
        forall|i: int| 0 <= i < res.len() && i < sl(b, t, t as int, skip).len() ==> psr_incl(#[trigger] res[i]) == (sl(b, t, t as int, skip)[i] <= g),
    ensures (exists|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g)) ==> interp(sl(b, t, t as int, skip), t, res) == Some(sgn(g - t)),
        !(exists|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g)) ==> interp(sl(b, t, t as int, skip), t, res) == Some(0int),
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_first(); let c = sl(b, t, t as int, skip); let c1 = sl(d, t, t as int, skip);
        if skip.contains(b[0]) { assert(c =~= c1); ladder_sound_at(d, t, g, skip, res); }
        else {
            assert(c == seq![b[0]] + c1); assert(c.drop_first() =~= c1); assert(c[0] == b[0]);
            if !lstops(b[0], t, g) {
                let r1 = res.drop_first();
                assert forall|i: int| 0 <= i < r1.len() && i < c1.len() implies psr_incl(#[trigger] r1[i]) == (c1[i] <= g) by { assert(r1[i] == res[i + 1]); assert(c[i + 1] == c1[i]); };
                ladder_sound_at(d, t, g, skip, r1);
            }
        }
        if exists|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g) { let i = choose|i: int| 0 <= i < b.len() && lstops(#[trigger] b[i], t, g); if i > 0 { assert(d[i - 1] == b[i]); } }
        if exists|i: int| 0 <= i < d.len() && lstops(#[trigger] d[i], t, g) { let i = choose|i: int| 0 <= i < d.len() && lstops(#[trigger] d[i], t, g); assert(b[i + 1] == d[i]); }
    }
}

// ---- version tracker (C09)
pub open spec fn vset(s: Seq<tm_posAndVersions>, n: int, left: bool, x: int) -> Set<u32> decreases n {
    if n <= 0 { Set::empty() } else { vset(s, n - 1, left, x).union(if (left && s[n - 1].pos < x) || (!left && s[n - 1].pos > x) { s[n - 1].vers@.to_set() } else { Set::empty() }) }
}
pub open spec fn lset(vt: tm_VersionTracker, x: int) -> Set<u32> { vset(vt.inclusion@, vt.inclusion@.len() as int, true, x) }
pub open spec fn rset(vt: tm_VersionTracker, x: int) -> Set<u32> { vset(vt.nonInclusion@, vt.nonInclusion@.len() as int, false, x) }
pub proof fn vset_has(s: Seq<tm_posAndVersions>, n: int, left: bool, x: int, v: u32) -> (i: int)
    requires 0 <= n <= s.len(), vset(s, n, left, x).contains(v)
    ensures 0 <= i < n, s[i].vers@.contains(v), left ==> s[i].pos < x, !left ==> s[i].pos > x
    decreases n
{
    if vset(s, n - 1, left, x).contains(v) { vset_has(s, n - 1, left, x, v) } else { n - 1 }
}

//@go tree/transparency/math.VersionTracker.AddLadder
pub fn tm_AddLadder(vt_r: &mut tm_VersionTracker, x: u64, omit: bool, greatest: i64, ladder: Slice<u32>)
    ensures !omit ==> *final(vt_r) == *old(vt_r),
        omit ==> vt_added(*old(vt_r), *final(vt_r), x) && (forall|v: u32| last_vers(final(vt_r).inclusion@).contains(v) <==> ladder@.contains(v) && v <= greatest)
            && (forall|v: u32| last_vers(final(vt_r).nonInclusion@).contains(v) <==> ladder@.contains(v) && v > greatest)
//@loop 1
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == ladder@, *vt_r == *old(vt_r),
        forall|v: u32| #[trigger] inclusion@.contains(v) <==> SEQ@.subrange(0, IDX as int).contains(v) && v <= greatest,
        forall|v: u32| #[trigger] nonInclusion@.contains(v) <==> SEQ@.subrange(0, IDX as int).contains(v) && v > greatest,
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost i0 = inclusion@; let ghost n0 = nonInclusion@;
//@hint loop 1 bottom
    proof {
        let a = SEQ@.subrange(0, IDX - 1); let b = SEQ@.subrange(0, IDX as int);
        assert(b =~= a.push(version));
        push_contains(a, version); push_contains(i0, version); push_contains(n0, version);
    }
//@hint return
    proof { if omit { assert(ladder@.subrange(0, ladder@.len() as int) =~= ladder@); } }
//@end
pub proof fn push_contains(a: Seq<u32>, v: u32) ensures forall|u: u32| #[trigger] a.push(v).contains(u) <==> a.contains(u) || u == v
{
    assert forall|u: u32| #[trigger] a.push(v).contains(u) <==> a.contains(u) || u == v by {
        if a.contains(u) { let k = choose|k: int| 0 <= k < a.len() && a[k] == u; assert(a.push(v)[k] == u); }
        if u == v { assert(a.push(v)[a.len() as int] == u); }
    };
}
pub open spec fn last_vers(s: Seq<tm_posAndVersions>) -> Seq<u32> { s.last().vers@ }
pub open spec fn vt_added(a: tm_VersionTracker, b: tm_VersionTracker, x: u64) -> bool {
    b.inclusion@.len() == a.inclusion@.len() + 1 && b.inclusion@.drop_last() =~= a.inclusion@ && b.inclusion@.last().pos == x
    && b.nonInclusion@.len() == a.nonInclusion@.len() + 1 && b.nonInclusion@.drop_last() =~= a.nonInclusion@ && b.nonInclusion@.last().pos == x
}

//@go tree/transparency/math.VersionTracker.AddResults
pub fn tm_AddResults(vt_r: &mut tm_VersionTracker, x: u64, omit: bool, ladder: Slice<u32>, results: Slice<PSR>)
    requires results@.len() <= ladder@.len(), psr_nn(results@)
    ensures !omit ==> *final(vt_r) == *old(vt_r),
        omit ==> vt_added(*old(vt_r), *final(vt_r), x) && (forall|v: u32| last_vers(final(vt_r).inclusion@).contains(v) <==> exists|i: int| 0 <= i < results@.len() && #[trigger] ladder@[i] == v && psr_incl(results@[i]))
            && (forall|v: u32| last_vers(final(vt_r).nonInclusion@).contains(v) <==> exists|i: int| 0 <= i < results@.len() && #[trigger] ladder@[i] == v && !psr_incl(results@[i]))
//@loop 1
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == results@, *vt_r == *old(vt_r), results@.len() <= ladder@.len(), psr_nn(results@),
        forall|v: u32| #[trigger] inclusion@.contains(v) <==> exists|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && psr_incl(results@[i]),
        forall|v: u32| #[trigger] nonInclusion@.contains(v) <==> exists|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && !psr_incl(results@[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost i0 = inclusion@; let ghost n0 = nonInclusion@;
    proof { assert(!(results@[IDX - 1] is Nil)); }
//@hint loop 1 bottom
    proof {
        let v0 = ladder@[IDX - 1];
        push_contains(i0, v0); push_contains(n0, v0);
        assert forall|v: u32| #[trigger] inclusion@.contains(v) <==> exists|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && psr_incl(results@[i]) by {
            if exists|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && psr_incl(results@[i]) { let i = choose|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && psr_incl(results@[i]); if i < IDX - 1 { assert(i0.contains(v)); } }
            if v == v0 && psr_incl(results@[IDX - 1]) { assert(ladder@[IDX - 1] == v); }
        };
        assert forall|v: u32| #[trigger] nonInclusion@.contains(v) <==> exists|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && !psr_incl(results@[i]) by {
            if exists|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && !psr_incl(results@[i]) { let i = choose|i: int| 0 <= i < IDX && #[trigger] ladder@[i] == v && !psr_incl(results@[i]); if i < IDX - 1 { assert(n0.contains(v)); } }
            if v == v0 && !psr_incl(results@[IDX - 1]) { assert(ladder@[IDX - 1] == v); }
        };
    }
//@end

//@go tree/transparency/math.VersionTracker.SearchMaps
pub fn tm_SearchMaps(vt: tm_VersionTracker, x: u64, omit: bool) -> (r: (GoMap<u32, ()>, GoMap<u32, ()>))
    ensures omit ==> r.0@.dom() == lset(vt, x as int) && r.1@.dom() == rset(vt, x as int),
        !omit ==> r.0@.dom() == Set::<u32>::empty() && r.1@.dom() == Set::<u32>::empty(),
//@loop 1
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == vt.inclusion@, !leftInclusion.nil@, leftInclusion@.dom() =~= vset(vt.inclusion@, IDX as int, true, x as int),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost d0 = leftInclusion@.dom();
//@loop 2
    invariant 0 <= IDX2 <= SEQ2@.len(), SEQ2@ == vt.inclusion@[IDX1 - 1].vers@, !leftInclusion.nil@,
        leftInclusion@.dom() =~= d0.union(SEQ2@.subrange(0, IDX2 as int).to_set()),
    decreases SEQ2@.len() - IDX2
//@hint loop 2 top
    let ghost d1 = leftInclusion@.dom();
//@hint loop 2 bottom
    proof { let a = SEQ2@.subrange(0, IDX2 - 1); let b = SEQ2@.subrange(0, IDX2 as int); assert(b =~= a.push(ver)); push_contains(a, ver);
        assert forall|u: u32| b.to_set().contains(u) == (a.to_set().contains(u) || u == ver) by { assert(b.to_set().contains(u) == b.contains(u)); assert(a.to_set().contains(u) == a.contains(u)); };
        assert(leftInclusion@.dom() =~= d1.insert(ver)); }
//@hint after loop 2
    proof { let q = SEQ2@; assert(q.subrange(0, q.len() as int) =~= q); }
//@loop 3
    invariant 0 <= IDX <= SEQ@.len(), SEQ@ == vt.nonInclusion@, !rightNonInclusion.nil@, rightNonInclusion@.dom() =~= vset(vt.nonInclusion@, IDX as int, false, x as int),
    decreases SEQ@.len() - IDX
//@hint loop 3 top
    let ghost d0 = rightNonInclusion@.dom();
//@loop 4
    invariant 0 <= IDX4 <= SEQ4@.len(), SEQ4@ == vt.nonInclusion@[IDX3 - 1].vers@, !rightNonInclusion.nil@,
        rightNonInclusion@.dom() =~= d0.union(SEQ4@.subrange(0, IDX4 as int).to_set()),
    decreases SEQ4@.len() - IDX4
//@hint loop 4 top
    let ghost d1 = rightNonInclusion@.dom();
//@hint loop 4 bottom
    proof { let a = SEQ4@.subrange(0, IDX4 - 1); let b = SEQ4@.subrange(0, IDX4 as int); assert(b =~= a.push(ver)); push_contains(a, ver);
        assert forall|u: u32| b.to_set().contains(u) == (a.to_set().contains(u) || u == ver) by { assert(b.to_set().contains(u) == b.contains(u)); assert(a.to_set().contains(u) == a.contains(u)); };
        assert(rightNonInclusion@.dom() =~= d1.insert(ver)); }
//@hint after loop 4
    proof { let q = SEQ4@; assert(q.subrange(0, q.len() as int) =~= q); }
//@end

// C09. gm gives the greatest version at each position; versions are never
// removed. The tracker holds true facts about visited positions, and the
// search moved right of positions whose greatest version is at most the
// target and left of those where it is at least the target.
pub open spec fn truthful(vt: tm_VersionTracker, gm: spec_fn(int) -> int) -> bool {
    (forall|i: int, v: u32| #![auto] 0 <= i < vt.inclusion@.len() && vt.inclusion@[i].vers@.contains(v) ==> v <= gm(vt.inclusion@[i].pos as int))
    && (forall|i: int, v: u32| #![auto] 0 <= i < vt.nonInclusion@.len() && vt.nonInclusion@[i].vers@.contains(v) ==> v > gm(vt.nonInclusion@[i].pos as int))
}
pub open spec fn on_path(vt: tm_VersionTracker, gm: spec_fn(int) -> int, x: int, t: u32) -> bool {
    (forall|i: int| 0 <= i < vt.inclusion@.len() && #[trigger] vt.inclusion@[i].pos < x ==> gm(vt.inclusion@[i].pos as int) <= t)
    && (forall|i: int| 0 <= i < vt.nonInclusion@.len() && #[trigger] vt.nonInclusion@[i].pos > x ==> gm(vt.nonInclusion@[i].pos as int) >= t)
}
pub open spec fn gmono(gm: spec_fn(int) -> int) -> bool { forall|a: int, b: int| #![trigger gm(a), gm(b)] a <= b ==> gm(a) <= gm(b) }
// the server's and the client's trackers hold the same facts
pub open spec fn same_facts(a: Seq<tm_posAndVersions>, b: Seq<tm_posAndVersions>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).pos == b[i].pos && a[i].vers@.to_set() =~= b[i].vers@.to_set()
}
pub open spec fn same_tracker(a: tm_VersionTracker, b: tm_VersionTracker) -> bool { same_facts(a.inclusion@, b.inclusion@) && same_facts(a.nonInclusion@, b.nonInclusion@) }
pub proof fn same_vset(a: Seq<tm_posAndVersions>, b: Seq<tm_posAndVersions>, n: int, left: bool, x: int) requires same_facts(a, b), n <= a.len() ensures vset(a, n, left, x) =~= vset(b, n, left, x) decreases n
{ if n > 0 { same_vset(a, b, n - 1, left, x); assert(a[n - 1].pos == b[n - 1].pos); } }

// an omitted lookup was already answered, and would not have ended the ladder
pub proof fn prop_omission(vt: tm_VersionTracker, gm: spec_fn(int) -> int, x: int, t: u32)
    requires gmono(gm), truthful(vt, gm), on_path(vt, gm, x, t)
    ensures skip_ok(lset(vt, x).union(rset(vt, x)), t, gm(x)),
        forall|v: u32| #[trigger] lset(vt, x).contains(v) ==> v <= gm(x), forall|v: u32| #[trigger] rset(vt, x).contains(v) ==> v > gm(x),
{
    assert forall|v: u32| #[trigger] lset(vt, x).contains(v) implies v <= gm(x) && v <= t by {
        let i = vset_has(vt.inclusion@, vt.inclusion@.len() as int, true, x, v); assert(gm(vt.inclusion@[i].pos as int) <= gm(x)); };
    assert forall|v: u32| #[trigger] rset(vt, x).contains(v) implies v > gm(x) && v > t by {
        let i = vset_has(vt.nonInclusion@, vt.nonInclusion@.len() as int, false, x, v); assert(gm(x) <= gm(vt.nonInclusion@[i].pos as int)); };
}
// One step of a search: the server adds the ladder it computed, the client
// the results it received; the client's list of lookups begins with the
// server's, it reads the right outcome, and the trackers still agree.
pub proof fn prop_step(vs: tm_VersionTracker, vc: tm_VersionTracker, vs2: tm_VersionTracker, vc2: tm_VersionTracker, gm: spec_fn(int) -> int, x: u64, t: u32, res: Seq<PSR>)
    requires gmono(gm), truthful(vs, gm), on_path(vs, gm, x as int, t), same_tracker(vs, vc), -1 <= gm(x as int) <= u32::MAX,
        ({ let skip = lset(vs, x as int).union(rset(vs, x as int)); let p = sl(bladder(t), t, gm(x as int), skip);
           let cskip = lset(vc, x as int).union(rset(vc, x as int)); let c = sl(bladder(t), t, t as int, cskip);
           &&& honest(p, gm(x as int), res)
           // what AddLadder does with p, and AddResults with c and the results
           &&& vt_added(vs, vs2, x) && (forall|v: u32| last_vers(vs2.inclusion@).contains(v) <==> p.contains(v) && v <= gm(x as int)) && (forall|v: u32| last_vers(vs2.nonInclusion@).contains(v) <==> p.contains(v) && v > gm(x as int))
           &&& vt_added(vc, vc2, x) && (forall|v: u32| last_vers(vc2.inclusion@).contains(v) <==> exists|i: int| 0 <= i < res.len() && #[trigger] c[i] == v && psr_incl(res[i]))
               && (forall|v: u32| last_vers(vc2.nonInclusion@).contains(v) <==> exists|i: int| 0 <= i < res.len() && #[trigger] c[i] == v && !psr_incl(res[i]))
        })
    ensures ({ let skip = lset(vs, x as int).union(rset(vs, x as int)); let p = sl(bladder(t), t, gm(x as int), skip);
           let cskip = lset(vc, x as int).union(rset(vc, x as int)); let c = sl(bladder(t), t, t as int, cskip);
           &&& p.len() <= c.len() && p =~= c.subrange(0, p.len() as int)
           &&& interp(c, t, res) == Some(sgn(gm(x as int) - t))
           &&& same_tracker(vs2, vc2) && truthful(vs2, gm) })
{
    let g = gm(x as int);
    let skip = lset(vs, x as int).union(rset(vs, x as int)); let p = sl(bladder(t), t, g, skip);
    same_vset(vs.inclusion@, vc.inclusion@, vs.inclusion@.len() as int, true, x as int);
    same_vset(vs.nonInclusion@, vc.nonInclusion@, vs.nonInclusion@.len() as int, false, x as int);
    prop_omission(vs, gm, x as int, t);
    prop_ladder(t, g, skip, res);
    let c = sl(bladder(t), t, t as int, skip);
    assert forall|i: int| 0 <= i < p.len() implies p[i] == c[i] by {};
    let li = last_vers(vs2.inclusion@); let lc = last_vers(vc2.inclusion@); let ni = last_vers(vs2.nonInclusion@); let nc = last_vers(vc2.nonInclusion@);
    assert forall|v: u32| li.contains(v) == lc.contains(v) && ni.contains(v) == nc.contains(v) by {
        if p.contains(v) { let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(c[i] == v); }
        if lc.contains(v) { let i = choose|i: int| 0 <= i < res.len() && #[trigger] c[i] == v && psr_incl(res[i]); assert(p[i] == v); }
        if nc.contains(v) { let i = choose|i: int| 0 <= i < res.len() && #[trigger] c[i] == v && !psr_incl(res[i]); assert(p[i] == v); }
    };
    assert(li.to_set() =~= lc.to_set()); assert(ni.to_set() =~= nc.to_set());
    let n1 = vs.inclusion@.len() as int; let n2 = vs.nonInclusion@.len() as int;
    assert forall|i: int| 0 <= i < vs2.inclusion@.len() implies (#[trigger] vs2.inclusion@[i]).pos == vc2.inclusion@[i].pos && vs2.inclusion@[i].vers@.to_set() =~= vc2.inclusion@[i].vers@.to_set() by { if i < n1 { assert(vs2.inclusion@.drop_last()[i] == vs.inclusion@[i]); assert(vc2.inclusion@.drop_last()[i] == vc.inclusion@[i]); } };
    assert forall|i: int| 0 <= i < vs2.nonInclusion@.len() implies (#[trigger] vs2.nonInclusion@[i]).pos == vc2.nonInclusion@[i].pos && vs2.nonInclusion@[i].vers@.to_set() =~= vc2.nonInclusion@[i].vers@.to_set() by { if i < n2 { assert(vs2.nonInclusion@.drop_last()[i] == vs.nonInclusion@[i]); assert(vc2.nonInclusion@.drop_last()[i] == vc.nonInclusion@[i]); } };
    assert forall|i: int, v: u32| #![auto] 0 <= i < vs2.inclusion@.len() && vs2.inclusion@[i].vers@.contains(v) implies v <= gm(vs2.inclusion@[i].pos as int) by { if i < n1 { assert(vs2.inclusion@.drop_last()[i] == vs.inclusion@[i]); } };
    assert forall|i: int, v: u32| #![auto] 0 <= i < vs2.nonInclusion@.len() && vs2.nonInclusion@[i].vers@.contains(v) implies v > gm(vs2.nonInclusion@[i].pos as int) by { if i < n2 { assert(vs2.nonInclusion@.drop_last()[i] == vs.nonInclusion@[i]); } };
}
// the search ladder of a version, with nothing left out
pub open spec fn full_ladder(t: u32) -> Seq<u32> { sl(bladder(t), t, t as int, Set::<u32>::empty()) }
pub open spec fn among(s: Seq<u32>, k: int, v: u32) -> bool { exists|j: int| 0 <= j < k && #[trigger] s[j] == v }
