//@use logproof.vrs
// ---- C01: evaluation of batch proofs
// s covers x: every path down from x ends in exactly one element of s that has
// nothing of s below it, and no leaf is missed.
pub open spec fn cov(x: int, w: int, s: Set<u64>) -> bool decreases lvl(x)
{
    (s.contains(x as u64) && only_in(s, x, w))
    || (lvl(x) >= 1 && 0 <= x && x + 1 < w && lvl(right_of(x, w)) < lvl(x) && lvl(left_of(x)) < lvl(x) && cov(left_of(x), w, s) && cov(right_of(x, w), w, s))
}
pub open spec fn hit(s: Set<u64>, y: int, w: int) -> bool { exists|z: u64| s.contains(z) && inx(z as int, y, w) }
pub open spec fn sagree(s: Set<u64>, t: Set<u64>, x: int, w: int) -> bool { forall|y: u64| inx(y as int, x, w) ==> s.contains(y) == t.contains(y) }

pub proof fn cov_ext(x: int, w: int, s: Set<u64>, t: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, sagree(s, t, x, w), cov(x, w, s) ensures cov(x, w, t) decreases lvl(x)
{
    kids_cover(x, w);
    if s.contains(x as u64) && only_in(s, x, w) { assert(inx((x as u64) as int, x, w)); assert(only_in(t, x, w)); }
    else { cov_ext(left_of(x), w, s, t); cov_ext(right_of(x, w), w, s, t); }
}
pub proof fn cov_hit(x: int, w: int, s: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, cov(x, w, s) ensures hit(s, x, w) decreases lvl(x)
{
    kids_cover(x, w);
    if s.contains(x as u64) && only_in(s, x, w) { assert(inx((x as u64) as int, x, w)); }
    else { cov_hit(left_of(x), w, s); let z = choose|z: u64| s.contains(z) && inx(z as int, left_of(x), w); assert(inx(z as int, x, w)); }
}
// every maximal complete subtree of x is hit, when only complete subtrees are in s
pub proof fn cov_fsubs_hit(x: int, w: int, s: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, cov(x, w, s), forall|y: u64| #[trigger] s.contains(y) ==> nh(y as int) <= w
    ensures forall|i: int| 0 <= i < fsubs(x, w).len() ==> hit(s, #[trigger] fsubs(x, w)[i] as int, w)
    decreases lvl(x)
{
    kids_cover(x, w); lvl_props(x); cov_hit(x, w, s); fsubs_props(x, w);
    if nh(x) > w {
        if lvl(x) == 0 { assert(pw(0) == 1); }
        assert(!s.contains(x as u64));
        cov_hit(left_of(x), w, s);
        cov_fsubs_hit(right_of(x, w), w, s);
        let f = fsubs(right_of(x, w), w);
        assert forall|i: int| 0 <= i < fsubs(x, w).len() implies hit(s, #[trigger] fsubs(x, w)[i] as int, w) by { if i > 0 { assert(fsubs(x, w)[i] == f[i - 1]); } };
    }
}
pub proof fn fsubs_cov(x: int, w: int)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX ensures cov(x, w, fsubs(x, w).to_set()) decreases lvl(x)
{
    kids_cover(x, w); lvl_props(x); fsubs_props(x, w);
    let s = fsubs(x, w).to_set();
    if nh(x) <= w {
        assert(fsubs(x, w) =~= seq![x as u64]);
        assert(fsubs(x, w)[0] == x as u64);
        assert(s.contains(x as u64));
        assert forall|y: u64| s.contains(y) && inx(y as int, x, w) implies y == x by {};
        assert(only_in(s, x, w));
        assert(cov(x, w, s));
    } else {
        if lvl(x) == 0 { assert(pw(0) == 1); }
        left_props(x);
        let la = left_of(x); let ra = right_of(x, w);
        let f = fsubs(ra, w);
        assert(fsubs(x, w) =~= seq![la as u64] + f);
        fsubs_props(ra, w);
        fsubs_cov(ra, w);
        assert(fsubs(x, w)[0] == la as u64);
        assert forall|y: u64| s.contains(y) && inx(y as int, la, w) implies y == la by {
            let k = choose|k: int| 0 <= k < fsubs(x, w).len() && fsubs(x, w)[k] == y; if k > 0 { assert(f[k - 1] == y); assert(inx(f[k - 1] as int, ra, w)); } };
        assert forall|y: u64| inx(y as int, ra, w) implies f.to_set().contains(y) == s.contains(y) by {
            if f.to_set().contains(y) { let k = choose|k: int| 0 <= k < f.len() && f[k] == y; assert(fsubs(x, w)[k + 1] == y); }
            if s.contains(y) { let k = choose|k: int| 0 <= k < fsubs(x, w).len() && fsubs(x, w)[k] == y; if k > 0 { assert(f[k - 1] == y); } }
        };
        cov_ext(ra, w, f.to_set(), s);
        assert(only_in(s, la, w)); assert(s.contains(la as u64)); assert(cov(la, w, s)); assert(cov(x, w, s));
    }
}
pub open spec fn full_in(s: Set<u64>, w: int) -> bool { forall|y: u64| #[trigger] s.contains(y) ==> y < w && nh(y as int) <= w }
pub proof fn bcop_in(x: int, w: int, kn: Set<u64>, inc: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, full_in(kn, w)
    ensures forall|i: int| 0 <= i < bcop(x, w, kn, inc).len() ==> inx(#[trigger] bcop(x, w, kn, inc)[i] as int, x, w) && nh(bcop(x, w, kn, inc)[i] as int) <= w
    decreases lvl(x)
{
    kids_cover(x, w); fsubs_props(x, w);
    if !none_in(kn, x, w) {
        if only_in(kn, x, w) {
            let y = choose|y: u64| kn.contains(y) && inx(y as int, x, w);
            assert(y == x);
        } else if lvl(x) >= 1 {
            bcop_in(left_of(x), w, kn, inc); bcop_in(right_of(x, w), w, kn, inc);
            let a = bcop(left_of(x), w, kn, inc); let b = bcop(right_of(x, w), w, kn, inc);
            assert(bcop(x, w, kn, inc) =~= a + b);
            assert forall|i: int| 0 <= i < bcop(x, w, kn, inc).len() implies inx(#[trigger] bcop(x, w, kn, inc)[i] as int, x, w) && nh(bcop(x, w, kn, inc)[i] as int) <= w by {
                if i < a.len() { assert(bcop(x, w, kn, inc)[i] == a[i]); } else { assert(bcop(x, w, kn, inc)[i] == b[i - a.len()]); } };
        }
    }
}
// kk is what the verifier ends up with: the nodes it was given (a), which are
// all known nodes but some of the additional ones, and the copath
pub open spec fn gets(kk: Set<u64>, a: Set<u64>, x: int, w: int, kn: Set<u64>, inc: Set<u64>) -> bool {
    &&& forall|y: u64| #[trigger] a.contains(y) ==> kn.contains(y)
    &&& forall|y: u64| #[trigger] kn.contains(y) && !a.contains(y) ==> inc.contains(y)
    &&& forall|y: u64| inx(y as int, x, w) ==> #[trigger] kk.contains(y) == (a.contains(y) || bcop(x, w, kn, inc).contains(y))
}
pub proof fn gets_kids(kk: Set<u64>, a: Set<u64>, x: int, w: int, kn: Set<u64>, inc: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, full_in(kn, w), gets(kk, a, x, w, kn, inc), !none_in(kn, x, w), !only_in(kn, x, w)
    ensures lvl(x) >= 1, gets(kk, a, left_of(x), w, kn, inc), gets(kk, a, right_of(x, w), w, kn, inc)
{
    kids_cover(x, w);
    let la = left_of(x); let ra = right_of(x, w);
    let p = bcop(la, w, kn, inc); let q = bcop(ra, w, kn, inc); let c = bcop(x, w, kn, inc);
    bcop_in(la, w, kn, inc); bcop_in(ra, w, kn, inc);
    assert(lvl(x) >= 1);
    assert(c =~= p + q);
    assert forall|y: u64| c.contains(y) == (p.contains(y) || q.contains(y)) by {
        if c.contains(y) { let k = choose|k: int| 0 <= k < c.len() && c[k] == y; if k < p.len() { assert(p[k] == y); } else { assert(q[k - p.len()] == y); } }
        if p.contains(y) { let k = choose|k: int| 0 <= k < p.len() && p[k] == y; assert(c[k] == y); }
        if q.contains(y) { let k = choose|k: int| 0 <= k < q.len() && q[k] == y; assert(c[k + p.len()] == y); }
    };
    assert forall|y: u64| inx(y as int, la, w) implies #[trigger] kk.contains(y) == (a.contains(y) || p.contains(y)) by {
        assert(inx(y as int, x, w)); if q.contains(y) { let k = choose|k: int| 0 <= k < q.len() && q[k] == y; assert(inx(q[k] as int, ra, w)); } };
    assert forall|y: u64| inx(y as int, ra, w) implies #[trigger] kk.contains(y) == (a.contains(y) || q.contains(y)) by {
        assert(inx(y as int, x, w)); if p.contains(y) { let k = choose|k: int| 0 <= k < p.len() && p[k] == y; assert(inx(p[k] as int, la, w)); } };
}
pub proof fn cov_gets(kk: Set<u64>, a: Set<u64>, x: int, w: int, kn: Set<u64>, inc: Set<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, full_in(kn, w), gets(kk, a, x, w, kn, inc)
    ensures cov(x, w, kk)
    decreases lvl(x)
{
    kids_cover(x, w);
    let c = bcop(x, w, kn, inc);
    assert((x as u64) as int == x);
    if none_in(kn, x, w) {
        fsubs_cov(x, w);
        assert forall|y: u64| inx(y as int, x, w) implies c.to_set().contains(y) == kk.contains(y) by { assert(!kn.contains(y)); };
        cov_ext(x, w, c.to_set(), kk);
    } else if only_in(kn, x, w) {
        let y = choose|y: u64| kn.contains(y) && inx(y as int, x, w);
        assert(y == x);
        if inc.contains(x as u64) { assert(c =~= seq![x as u64]); assert(c[0] == x as u64); assert(c.contains(x as u64)); } else { assert(a.contains(x as u64)); assert(c =~= Seq::<u64>::empty()); }
        assert(kk.contains(x as u64));
        assert forall|y: u64| kk.contains(y) && inx(y as int, x, w) implies y == x by {};
    } else {
        gets_kids(kk, a, x, w, kn, inc);
        cov_gets(kk, a, left_of(x), w, kn, inc); cov_gets(kk, a, right_of(x, w), w, kn, inc);
    }
}
// every known node can be computed: there is something of kk at or below it
pub proof fn known_hit(kk: Set<u64>, a: Set<u64>, x: int, w: int, kn: Set<u64>, inc: Set<u64>, y: u64)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, full_in(kn, w), gets(kk, a, x, w, kn, inc), kn.contains(y), inx(y as int, x, w)
    ensures hit(kk, y as int, w)
    decreases lvl(x)
{
    kids_cover(x, w);
    let c = bcop(x, w, kn, inc);
    lvl_props(y as int);
    if only_in(kn, x, w) {
        assert(y == x);
        if inc.contains(x as u64) { assert(c =~= seq![x as u64]); assert(c[0] == x as u64); assert(c.contains(x as u64)); } else { assert(a.contains(x as u64)); }
        assert(kk.contains(y));
    } else {
        gets_kids(kk, a, x, w, kn, inc);
        if y == x { cov_gets(kk, a, x, w, kn, inc); cov_hit(x, w, kk); }
        else if y < x { known_hit(kk, a, left_of(x), w, kn, inc, y); }
        else { known_hit(kk, a, right_of(x, w), w, kn, inc, y); }
    }
}

// ---- the verifier's node map
pub open spec fn map_ok(cs: Suite, m: Map<u64, lg_nodeData>) -> bool {
    forall|x: u64| #[trigger] m.dom().contains(x) ==> m[x].leaf == (x % 2 == 0) && m[x].value@.len() == hsize(cs)
}
pub open spec fn grows(a: Map<u64, lg_nodeData>, b: Map<u64, lg_nodeData>) -> bool {
    forall|x: u64| #[trigger] a.dom().contains(x) ==> b.dom().contains(x) && b[x] == a[x]
}
// the map's value for y is the log's
pub open spec fn tru(cs: Suite, l: Log, m: Map<u64, lg_nodeData>, y: u64) -> bool { m[y].value@ == mv(cs, l, y as int) }
pub open spec fn tru_all(cs: Suite, l: Log, m: Map<u64, lg_nodeData>, s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> tru(cs, l, m, #[trigger] s[i]) }
pub open spec fn covered(m: Map<u64, lg_nodeData>, x: int, w: int, s: Set<u64>) -> bool {
    forall|y: u64| inx(y as int, x, w) && nh(y as int) <= w && hit(s, y as int, w) ==> #[trigger] m.dom().contains(y)
}
// if the maximal complete subtrees of x have the log's values then so has
// every node of s
pub open spec fn sound_at(cs: Suite, m: Map<u64, lg_nodeData>, x: int, w: int, s: Seq<u64>) -> bool {
    forall|l: Log| is_log(cs, l, w) && #[trigger] tru_all(cs, l, m, fsubs(x, w)) ==> tru_all(cs, l, m, s)
}
// and the other way round: true inputs give true results and no conflict
pub open spec fn all_true(cs: Suite, l: Log, m: Map<u64, lg_nodeData>) -> bool { forall|y: u64| #[trigger] m.dom().contains(y) ==> tru(cs, l, m, y) }

//@go tree/log.Verifier.addToMap
pub fn lg_addToMap(v: lg_Verifier, m_r: &mut GoMap<u64, lg_nodeData>, x: u64, val: Slice<u8>) -> (r: Option<GoErr>)
    requires map_ok(v.cs, old(m_r)@), !old(m_r).nil@
    ensures map_ok(v.cs, final(m_r)@), grows(old(m_r)@, final(m_r)@), !final(m_r).nil@,
        r.is_none() ==> final(m_r)@.dom() == old(m_r)@.dom().insert(x) && final(m_r)@[x].value@ == val@ && val@.len() == hsize(v.cs),
        r.is_some() ==> val@.len() != hsize(v.cs) || (old(m_r)@.dom().contains(x) && old(m_r)@[x].value@ != val@),
//@hint return 1
    proof { }
//@hint return
    proof { assert(m@.dom() =~= old(m_r)@.dom().insert(x) || ret.is_some()); }
//@end

pub proof fn sound_step(cs: Suite, m: Map<u64, lg_nodeData>, x: int, w: int, l: Log)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, nh(x) <= w, map_ok(cs, m), is_log(cs, l, w),
        m.dom().contains(x as u64), m.dom().contains(left_of(x) as u64), m.dom().contains(right_of(x, w) as u64),
        m[x as u64].value@ == sha(cs, encx(left_of(x), m[left_of(x) as u64].value@) + encx(rstep_of(x), m[right_of(x, w) as u64].value@)),
        used(cs, encx(left_of(x), m[left_of(x) as u64].value@) + encx(rstep_of(x), m[right_of(x, w) as u64].value@)),
    ensures right_of(x, w) == rstep_of(x),
        tru(cs, l, m, x as u64) <==> (tru(cs, l, m, left_of(x) as u64) && tru(cs, l, m, rstep_of(x) as u64))
{
    kids_cover(x, w); left_props(x); rstep_props(x); lvl_props(x);
    right_full(x, w);
    mv_inner(cs, l, x);
    mv_len(cs, l, left_of(x), w); mv_len(cs, l, rstep_of(x), w);
    let a = m[left_of(x) as u64].value@; let b = m[rstep_of(x) as u64].value@;
    if tru(cs, l, m, x as u64) {
        axiom_cr(cs, encx(left_of(x), a) + encx(rstep_of(x), b), mvin(cs, l, x));
        enc_inj(left_of(x) % 2 == 0, a, rstep_of(x) % 2 == 0, b, left_of(x) % 2 == 0, mv(cs, l, left_of(x)), rstep_of(x) % 2 == 0, mv(cs, l, rstep_of(x)));
    }
}
pub proof fn right_full(x: int, w: int) requires 0 <= x < w, w % 2 == 1, lvl(x) >= 1, nh(x) <= w ensures right_of(x, w) == rstep_of(x), rstep_of(x) < w, nh(left_of(x)) <= w, nh(rstep_of(x)) <= w
{ rstep_props(x); left_props(x); lvl_props(x); assert(is_right(rstep_of(x), x, w)); right_is(rstep_of(x), x, w); }
pub proof fn fsubs_full(x: int, w: int) requires 0 <= x < w, nh(x) <= w ensures fsubs(x, w) == seq![x as u64] {}

pub open spec fn split_at(x: int, s: Seq<u64>, i: int, j: int) -> bool {
    0 <= i <= j <= s.len() && (forall|k: int| 0 <= k < i ==> s[k] < x) && (forall|k: int| j <= k < s.len() ==> s[k] > x) && (forall|k: int| i <= k < j ==> s[k] == x)
}
pub proof fn split_agree(x: int, w: int, s: Seq<u64>, i: int, j: int)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, split_at(x, s, i, j)
    ensures sagree(s.to_set(), s.subrange(0, i).to_set(), left_of(x), w), sagree(s.to_set(), s.subrange(j, s.len() as int).to_set(), right_of(x, w), w)
{
    kids_cover(x, w);
    let a = s.subrange(0, i); let b = s.subrange(j, s.len() as int);
    assert forall|y: u64| inx(y as int, left_of(x), w) implies s.to_set().contains(y) == a.to_set().contains(y) by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(k < i); assert(a[k] == y); }
        if a.contains(y) { let k = choose|k: int| 0 <= k < a.len() && a[k] == y; assert(s[k] == y); } };
    assert forall|y: u64| inx(y as int, right_of(x, w), w) implies s.to_set().contains(y) == b.to_set().contains(y) by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(k >= j); assert(b[k - j] == y); }
        if b.contains(y) { let k = choose|k: int| 0 <= k < b.len() && b[k] == y; assert(s[k + j] == y); } };
}
pub proof fn eval_split(x: int, w: int, s: Seq<u64>, i: int, j: int)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, split_at(x, s, i, j), cov(x, w, s.to_set()), !only_in(s.to_set(), x, w)
    ensures cov(left_of(x), w, s.subrange(0, i).to_set()), cov(right_of(x, w), w, s.subrange(j, s.len() as int).to_set())
{
    kids_cover(x, w); split_agree(x, w, s, i, j);
    cov_ext(left_of(x), w, s.to_set(), s.subrange(0, i).to_set());
    cov_ext(right_of(x, w), w, s.to_set(), s.subrange(j, s.len() as int).to_set());
}
pub proof fn covered_use(m: Map<u64, lg_nodeData>, x: int, w: int, s: Set<u64>, y: u64)
    requires covered(m, x, w, s), inx(y as int, x, w), nh(y as int) <= w, hit(s, y as int, w) ensures m.dom().contains(y) {}
pub proof fn hit_split(x: int, w: int, s: Set<u64>, t: Set<u64>, y: int) requires 0 <= x < w, 0 <= y, sagree(s, t, x, w), inx(y, x, w), hit(s, y, w) ensures hit(t, y, w)
{ let z = choose|z: u64| s.contains(z) && inx(z as int, y, w); under_nested(y, x); assert(t.contains(z)); }
pub open spec fn computed(cs: Suite, m2: Map<u64, lg_nodeData>, m3: Map<u64, lg_nodeData>, x: int, w: int) -> bool {
    if nh(x) <= w {
        m3.dom().contains(x as u64)
        && m3[x as u64].value@ == sha(cs, encx(left_of(x), m2[left_of(x) as u64].value@) + encx(rstep_of(x), m2[right_of(x, w) as u64].value@))
        && used(cs, encx(left_of(x), m2[left_of(x) as u64].value@) + encx(rstep_of(x), m2[right_of(x, w) as u64].value@))
    } else { m3 == m2 }
}
pub open spec fn kids_done(cs: Suite, m0: Map<u64, lg_nodeData>, m1: Map<u64, lg_nodeData>, m2: Map<u64, lg_nodeData>, m3: Map<u64, lg_nodeData>, x: int, w: int, s: Seq<u64>, i: int, j: int) -> bool {
    &&& split_at(x, s, i, j) && nodes_ok(s.to_set(), x, w) && grows(m0, m1) && grows(m1, m2) && grows(m2, m3) && map_ok(cs, m3)
    &&& forall|k: int| 0 <= k < s.len() ==> m0.dom().contains(#[trigger] s[k])
    &&& covered(m1, left_of(x), w, s.subrange(0, i).to_set()) && sound_at(cs, m1, left_of(x), w, s.subrange(0, i))
    &&& covered(m2, right_of(x, w), w, s.subrange(j, s.len() as int).to_set()) && sound_at(cs, m2, right_of(x, w), w, s.subrange(j, s.len() as int))
    &&& cov(left_of(x), w, s.subrange(0, i).to_set()) && cov(right_of(x, w), w, s.subrange(j, s.len() as int).to_set())
}
pub proof fn join_cov(cs: Suite, m0: Map<u64, lg_nodeData>, m1: Map<u64, lg_nodeData>, m2: Map<u64, lg_nodeData>, m3: Map<u64, lg_nodeData>, x: int, w: int, s: Seq<u64>, i: int, j: int)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, kids_done(cs, m0, m1, m2, m3, x, w, s, i, j), computed(cs, m2, m3, x, w)
    ensures covered(m3, x, w, s.to_set())
{
    kids_cover(x, w); split_agree(x, w, s, i, j);
    let la = left_of(x); let ra = right_of(x, w);
    let a = s.subrange(0, i); let b = s.subrange(j, s.len() as int);
    assert forall|y: u64| inx(y as int, x, w) && nh(y as int) <= w && hit(s.to_set(), y as int, w) implies #[trigger] m3.dom().contains(y) by {
        if y < x { assert(inx(y as int, la, w)); hit_split(la, w, s.to_set(), a.to_set(), y as int); covered_use(m1, la, w, a.to_set(), y); assert(m2.dom().contains(y)); }
        else if y > x { assert(inx(y as int, ra, w)); hit_split(ra, w, s.to_set(), b.to_set(), y as int); covered_use(m2, ra, w, b.to_set(), y); }
    };
}
pub proof fn join_full(cs: Suite, m0: Map<u64, lg_nodeData>, m1: Map<u64, lg_nodeData>, m2: Map<u64, lg_nodeData>, m3: Map<u64, lg_nodeData>, x: int, w: int, s: Seq<u64>, i: int, j: int, l: Log)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, kids_done(cs, m0, m1, m2, m3, x, w, s, i, j), computed(cs, m2, m3, x, w),
        is_log(cs, l, w), tru_all(cs, l, m3, fsubs(x, w)),
    ensures tru_all(cs, l, m1, fsubs(left_of(x), w)), tru_all(cs, l, m2, fsubs(right_of(x, w), w)), nh(x) <= w ==> tru(cs, l, m3, x as u64)
{
    kids_cover(x, w); left_props(x); lvl_props(x); lvl_props(left_of(x)); lvl_props(right_of(x, w)); rstep_props(x);
    let la = left_of(x); let ra = right_of(x, w);
    let a = s.subrange(0, i); let b = s.subrange(j, s.len() as int);
    let f = fsubs(ra, w);
    fsubs_full(la, w);
    cov_hit(la, w, a.to_set());
    assert(inx(la, la, w));
    covered_use(m1, la, w, a.to_set(), la as u64);
    assert(m2.dom().contains(la as u64)); assert(m3.dom().contains(la as u64));
    assert(m3[la as u64] == m1[la as u64]);
    fsubs_props(ra, w);
    assert forall|y: u64| #[trigger] b.to_set().contains(y) implies nh(y as int) <= w by { let k = choose|k: int| 0 <= k < b.len() && b[k] == y; assert(s[k + j] == y); assert(s.to_set().contains(y)); };
    cov_fsubs_hit(ra, w, b.to_set());
    assert forall|k: int| 0 <= k < f.len() implies #[trigger] m2.dom().contains(f[k]) by { covered_use(m2, ra, w, b.to_set(), f[k]); };
    if nh(x) <= w {
        right_full(x, w);
        fsubs_full(x, w); fsubs_full(ra, w);
        assert(fsubs(x, w)[0] == x as u64);
        assert(tru(cs, l, m3, x as u64));
        assert(f[0] == ra as u64);
        assert(m2.dom().contains(ra as u64));
        assert(m3.dom().contains(ra as u64));
        assert(m3[ra as u64] == m2[ra as u64]);
        assert(m3[la as u64] == m2[la as u64]);
        sound_step(cs, m3, x, w, l);
        assert(tru(cs, l, m1, la as u64)); assert(tru(cs, l, m2, ra as u64));
    } else {
        assert(fsubs(x, w) =~= seq![la as u64] + f);
        assert(fsubs(x, w)[0] == la as u64);
        assert(tru(cs, l, m3, la as u64));
        assert forall|k: int| 0 <= k < f.len() implies tru(cs, l, m2, #[trigger] f[k]) by { assert(fsubs(x, w)[k + 1] == f[k]); assert(m2.dom().contains(f[k])); };
    }
}
pub proof fn eval_join(cs: Suite, m0: Map<u64, lg_nodeData>, m1: Map<u64, lg_nodeData>, m2: Map<u64, lg_nodeData>, m3: Map<u64, lg_nodeData>, x: int, w: int, s: Seq<u64>, i: int, j: int)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, kids_done(cs, m0, m1, m2, m3, x, w, s, i, j), computed(cs, m2, m3, x, w)
    ensures sound_at(cs, m3, x, w, s)
{
    let a = s.subrange(0, i); let b = s.subrange(j, s.len() as int);
    assert forall|l: Log| is_log(cs, l, w) && #[trigger] tru_all(cs, l, m3, fsubs(x, w)) implies tru_all(cs, l, m3, s) by {
        join_full(cs, m0, m1, m2, m3, x, w, s, i, j, l);
        assert(tru_all(cs, l, m1, a)); assert(tru_all(cs, l, m2, b));
        assert forall|k: int| 0 <= k < s.len() implies tru(cs, l, m3, #[trigger] s[k]) by {
            assert(m0.dom().contains(s[k])); assert(m1.dom().contains(s[k])); assert(m2.dom().contains(s[k]));
            if k < i { assert(a[k] == s[k]); }
            else if k >= j { assert(b[k - j] == s[k]); }
            else { assert(s.to_set().contains(s[k])); }
        };
    };
}

pub proof fn eval_base(cs: Suite, m: Map<u64, lg_nodeData>, x: int, w: int, sorted: Seq<u64>)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, sorted_u64(sorted), sorted.no_duplicates(), nodes_ok(sorted.to_set(), x, w), cov(x, w, sorted.to_set()),
        forall|i: int| 0 <= i < sorted.len() ==> m.dom().contains(#[trigger] sorted[i]),
    ensures sorted.len() >= 1, !(sorted.len() == 1 && sorted[0] == x) ==> lvl(x) >= 1 && !only_in(sorted.to_set(), x, w),
        sorted.len() == 1 && sorted[0] == x ==> covered(m, x, w, sorted.to_set()) && sound_at(cs, m, x, w, sorted)
{
    let s = sorted.to_set();
    batch_base(x, w, sorted); kids_cover(x, w); lvl_props(x); cov_hit(x, w, s);
    if sorted.len() == 1 && sorted[0] == x {
        assert(s.contains(sorted[0]));
        fsubs_full(x, w);
        assert(sorted =~= fsubs(x, w));
        assert forall|y: u64| inx(y as int, x, w) && nh(y as int) <= w && hit(s, y as int, w) implies #[trigger] m.dom().contains(y) by {
            let z = choose|z: u64| s.contains(z) && inx(z as int, y as int, w); let k = choose|k: int| 0 <= k < sorted.len() && sorted[k] == z; assert(z == x); under_nested(x, y as int); under_nested(y as int, x); assert(y == x); assert(m.dom().contains(sorted[0])); };
    }
}
pub proof fn eval_mid(cs: Suite, m0: Map<u64, lg_nodeData>, m1: Map<u64, lg_nodeData>, m2: Map<u64, lg_nodeData>, x: int, w: int, s: Seq<u64>, i: int, j: int)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, kids_done(cs, m0, m1, m2, m2, x, w, s, i, j)
    ensures nh(x) <= w ==> m2.dom().contains(left_of(x) as u64) && m2.dom().contains(right_of(x, w) as u64) && right_of(x, w) == rstep_of(x)
{
    if nh(x) <= w {
        kids_cover(x, w); right_full(x, w);
        let a = s.subrange(0, i); let b = s.subrange(j, s.len() as int);
        cov_hit(left_of(x), w, a.to_set()); cov_hit(right_of(x, w), w, b.to_set());
        assert(inx(left_of(x), left_of(x), w)) by { lvl_props(left_of(x)); }; assert(inx(right_of(x, w), right_of(x, w), w)) by { lvl_props(right_of(x, w)); };
        covered_use(m1, left_of(x), w, a.to_set(), left_of(x) as u64);
        covered_use(m2, right_of(x, w), w, b.to_set(), right_of(x, w) as u64);
    }
}
pub proof fn true_step(cs: Suite, m: Map<u64, lg_nodeData>, x: int, w: int, l: Log)
    requires 0 <= x < w, w % 2 == 1, w <= u64::MAX, lvl(x) >= 1, nh(x) <= w, is_log(cs, l, w), all_true(cs, l, m),
        m.dom().contains(left_of(x) as u64), m.dom().contains(right_of(x, w) as u64),
    ensures mv(cs, l, x) == sha(cs, encx(left_of(x), m[left_of(x) as u64].value@) + encx(rstep_of(x), m[right_of(x, w) as u64].value@))
{
    right_full(x, w); kids_cover(x, w);
    mv_inner(cs, l, x);
    assert(tru(cs, l, m, left_of(x) as u64) && tru(cs, l, m, right_of(x, w) as u64));
}

//@go tree/log.Verifier.evaluate
pub fn lg_evaluate(v: lg_Verifier, x: u64, n: u64, nodes_r: &mut GoMap<u64, lg_nodeData>, sorted: Slice<u64>) -> (r: Option<GoErr>)
    requires okn(n), x < 2 * n - 1, sorted_u64(sorted@), sorted@.no_duplicates(), nodes_ok(sorted@.to_set(), x as int, 2 * n - 1), cov(x as int, 2 * n - 1, sorted@.to_set()),
        map_ok(v.cs, old(nodes_r)@), !old(nodes_r).nil@, forall|i: int| 0 <= i < sorted@.len() ==> old(nodes_r)@.dom().contains(#[trigger] sorted@[i]),
    ensures map_ok(v.cs, final(nodes_r)@), grows(old(nodes_r)@, final(nodes_r)@), !final(nodes_r).nil@,
        r.is_none() ==> covered(final(nodes_r)@, x as int, 2 * n - 1, sorted@.to_set()),
        r.is_none() ==> sound_at(v.cs, final(nodes_r)@, x as int, 2 * n - 1, sorted@),
        forall|l: Log| is_log(v.cs, l, 2 * n - 1) && #[trigger] all_true(v.cs, l, old(nodes_r)@) ==> r.is_none() && all_true(v.cs, l, final(nodes_r)@),
    decreases lvl(x as int)
//@hint entry
    let ghost w = 2 * n - 1;
    let ghost s = sorted@.to_set();
    let ghost m0 = nodes@;
    let ghost mut m1 = nodes@;
    let ghost mut m2 = nodes@;
    proof { eval_base(v.cs, m0, x as int, w, sorted@); }
//@hint before call lm_Left 1
    proof { if found { assert(forall|k: int| i < k < sorted@.len() ==> sorted@[k] != sorted@[i as int]); }
        assert(split_at(x as int, sorted@, i as int, j as int));
        batch_split(x as int, w, sorted@, i as int, j as int, Set::empty());
        eval_split(x as int, w, sorted@, i as int, j as int);
        kids_cover(x as int, w); }
//@hint after call lg_evaluate 1
    proof { m1 = nodes@; }
//@hint after call lg_evaluate 2
    proof { m2 = nodes@; }
//@hint before call lm_IsFullSubtree 1
    proof { 
        assert(kids_done(v.cs, m0, m1, m2, m2, x as int, w, sorted@, i as int, j as int));
        eval_mid(v.cs, m0, m1, m2, x as int, w, sorted@, i as int, j as int);
    }
//@hint after call lg_treeHash 1
    proof { 
        assert forall|l: Log| is_log(v.cs, l, 2 * n - 1) && #[trigger] all_true(v.cs, l, m2) implies RES.value@ == mv(v.cs, l, x as int) by { true_step(v.cs, m2, x as int, w, l); };
    }
//@hint return 5
    proof {
        assert(computed(v.cs, m2, nodes@, x as int, w));
        assert(kids_done(v.cs, m0, m1, m2, nodes@, x as int, w, sorted@, i as int, j as int));
        join_cov(v.cs, m0, m1, m2, nodes@, x as int, w, sorted@, i as int, j as int);
        eval_join(v.cs, m0, m1, m2, nodes@, x as int, w, sorted@, i as int, j as int);
    }
//@end

// ---- the verifier's interface
pub open spec fn vwf(v: lg_Verifier) -> bool {
    match v.prev {
        None => v.subtrees@.len() == 0 && v.values@.len() == 0,
        Some(m) => okn(m) && v.subtrees@ == froot(m as int) && v.values@.len() == v.subtrees@.len() && sized(v.cs, v.values@),
    }
}
// the log has these values at these nodes
pub open spec fn vals_at(cs: Suite, l: Log, xs: Seq<u64>, vs: Seq<Slice<u8>>) -> bool {
    xs.len() == vs.len() && forall|i: int| 0 <= i < xs.len() ==> (#[trigger] vs[i])@ == mv(cs, l, xs[i] as int)
}
pub open spec fn leaves_at(cs: Suite, l: Log, es: Seq<u64>, vs: Seq<Slice<u8>>) -> bool {
    es.len() == vs.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] vs[i])@ == mv(cs, l, 2 * es[i])
}
pub open spec fn opt_froot(n: Option<u64>) -> Seq<u64> { match n { Some(m) => froot(m as int), None => Seq::empty() } }
pub open spec fn sizes_ok(es: Seq<u64>, n: u64, nP: Option<u64>, prev: Option<u64>) -> bool {
    okn(n) && (nP.is_some() ==> 1 <= nP.unwrap() <= n) && (prev.is_some() ==> 1 <= prev.unwrap() <= n) && forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] < n
}
pub open spec fn copath_seq(es: Seq<u64>, n: u64, nP: Option<u64>, prev: Option<u64>) -> Seq<u64> { bcop(root_of(2 * n - 1), 2 * n - 1, known(es, nP, prev), opt_set(nP)) }
// what an honest server's answer looks like: the log's own values
pub open spec fn inp(cs: Suite, l: Log, v: lg_Verifier, es: Seq<u64>, vs: Seq<Slice<u8>>, cp: Seq<u64>, pf: Seq<Slice<u8>>) -> bool {
    leaves_at(cs, l, es, vs) && vals_at(cs, l, v.subtrees@, v.values@) && vals_at(cs, l, cp, pf)
}
pub open spec fn in_map(m: Map<u64, lg_nodeData>, y: u64, val: Slice<u8>) -> bool { m.dom().contains(y) && m[y].value@ == val@ }

//@go tree/log.NewVerifier
pub fn lg_NewVerifier(cs: Suite) -> (r: lg_Verifier) ensures vwf(r), r.cs == cs, r.prev.is_none()
//@end
//@go tree/log.Verifier.Last
pub fn lg_Last(v: lg_Verifier) -> (r: Option<u64>) ensures r == v.prev
//@end
//@go tree/log.Verifier.FullSubtrees
pub fn lg_FullSubtrees(v: lg_Verifier) -> (r: Slice<Slice<u8>>) ensures r == v.values
//@end
//@go tree/log.Verifier.Retain
pub fn lg_Retain(v_r: &mut lg_Verifier, prev: u64, fullSubtrees: Slice<Slice<u8>>) -> (r: Option<GoErr>)
    requires vwf(*old(v_r))
    ensures vwf(*final(v_r)), final(v_r).cs == old(v_r).cs, r.is_some() ==> *final(v_r) == *old(v_r),
        r.is_none() <==> okn(prev) && fullSubtrees@.len() == froot(prev as int).len() && sized(old(v_r).cs, fullSubtrees@),
        r.is_none() ==> final(v_r).prev == Some(prev) && final(v_r).values == fullSubtrees,
//@hint entry
    proof { if okn(prev) { root_exists(2 * prev - 1); } }
//@loop 1
    invariant forall|k: int| 0 <= k < IDX ==> (#[trigger] fullSubtrees@[k])@.len() == hsize(v.cs), SEQ == fullSubtrees, v == *old(v_r),
//@end

// the nodes the verifier ends up with
pub open spec fn given(es: Seq<u64>, n: u64, nP: Option<u64>, prev: Option<u64>) -> Set<u64> { known(es, None, prev).union(copath_seq(es, n, nP, prev).to_set()) }
pub proof fn known_full(es: Seq<u64>, n: u64, nP: Option<u64>, prev: Option<u64>)
    requires sizes_ok(es, n, nP, prev)
    ensures forall|y: u64| #[trigger] known(es, nP, prev).contains(y) ==> inx(y as int, root_of(2 * n - 1), 2 * n - 1) && nh(y as int) <= 2 * n - 1,
        full_in(known(es, nP, prev), 2 * n - 1), 0 <= root_of(2 * n - 1) < 2 * n - 1
{
    let w = 2 * n - 1; let rt = root_of(w);
    root_exists(w); lvl_props(rt);
    if nP.is_some() { froot_props(nP.unwrap() as int, n as int); }
    if prev.is_some() { froot_props(prev.unwrap() as int, n as int); }
    let lf = es.map_values(|x: u64| (2 * x) as u64);
    assert forall|y: u64| #[trigger] known(es, nP, prev).contains(y) implies inx(y as int, rt, w) && nh(y as int) <= w by {
        if leaf_set(es).contains(y) { let k = choose|k: int| 0 <= k < lf.len() && lf[k] == y; assert(es[k] < n); lvl_props(y as int); assert(pw(0) == 1); }
    };
}
pub proof fn given_ok(es: Seq<u64>, n: u64, nP: Option<u64>, prev: Option<u64>, s: Seq<u64>)
    requires sizes_ok(es, n, nP, prev), s.to_set() == given(es, n, nP, prev)
    ensures nodes_ok(s.to_set(), root_of(2 * n - 1), 2 * n - 1), cov(root_of(2 * n - 1), 2 * n - 1, s.to_set()),
        forall|i: int| 0 <= i < froot(n as int).len() ==> hit(s.to_set(), #[trigger] froot(n as int)[i] as int, 2 * n - 1) && inx(froot(n as int)[i] as int, root_of(2 * n - 1), 2 * n - 1) && nh(froot(n as int)[i] as int) <= 2 * n - 1,
        forall|i: int| 0 <= i < opt_froot(nP).len() ==> hit(s.to_set(), #[trigger] opt_froot(nP)[i] as int, 2 * n - 1) && inx(opt_froot(nP)[i] as int, root_of(2 * n - 1), 2 * n - 1) && nh(opt_froot(nP)[i] as int) <= 2 * n - 1,
{
    let w = 2 * n - 1; let rt = root_of(w); let kn = known(es, nP, prev); let inc = opt_set(nP); let a = known(es, None, prev); let kk = s.to_set();
    let cp = copath_seq(es, n, nP, prev);
    known_full(es, n, nP, prev);
    bcop_in(rt, w, kn, inc);
    assert forall|y: u64| #[trigger] kk.contains(y) implies inx(y as int, rt, w) && nh(y as int) <= w by {
        if a.contains(y) { assert(kn.contains(y)); } else { let k = choose|k: int| 0 <= k < cp.len() && cp[k] == y; assert(inx(cp[k] as int, rt, w)); }
    };
    assert(gets(kk, a, rt, w, kn, inc));
    cov_gets(kk, a, rt, w, kn, inc);
    fsubs_props(rt, w);
    cov_fsubs_hit(rt, w, kk);
    assert forall|i: int| 0 <= i < opt_froot(nP).len() implies hit(kk, #[trigger] opt_froot(nP)[i] as int, w) && inx(opt_froot(nP)[i] as int, rt, w) && nh(opt_froot(nP)[i] as int) <= w by {
        let y = opt_froot(nP)[i];
        assert(opt_froot(nP) == froot(nP.unwrap() as int));
        assert(froot(nP.unwrap() as int)[i] == y);
        assert(opt_set(nP).contains(y)); assert(kn.contains(y));
        known_hit(kk, a, rt, w, kn, inc, y);
    };
}
// the results: sound for any log whose full subtree values came out
pub proof fn eval_sound(cs: Suite, l: Log, v: lg_Verifier, es: Seq<u64>, vs: Seq<Slice<u8>>, n: u64, nP: Option<u64>, s: Seq<u64>, m0: Map<u64, lg_nodeData>, m: Map<u64, lg_nodeData>, f: Seq<Slice<u8>>, add: Seq<Slice<u8>>)
    requires is_log(cs, l, 2 * n - 1), sizes_ok(es, n, nP, v.prev), vwf(v), grows(m0, m), sound_at(cs, m, root_of(2 * n - 1), 2 * n - 1, s), m0.dom() =~= s.to_set(),
        es.len() == vs.len(), forall|k: int| 0 <= k < es.len() ==> in_map(m0, (2 * es[k]) as u64, #[trigger] vs[k]),
        forall|k: int| 0 <= k < v.subtrees@.len() ==> in_map(m0, v.subtrees@[k], #[trigger] v.values@[k]),
        f.len() == froot(n as int).len(), forall|k: int| 0 <= k < f.len() ==> in_map(m, froot(n as int)[k], #[trigger] f[k]),
        add.len() == opt_froot(nP).len(), forall|k: int| 0 <= k < add.len() ==> in_map(m, opt_froot(nP)[k], #[trigger] add[k]),
        all_true(cs, l, m0) ==> all_true(cs, l, m),
    ensures vals_at(cs, l, froot(n as int), f) ==> leaves_at(cs, l, es, vs) && vals_at(cs, l, v.subtrees@, v.values@) && vals_at(cs, l, opt_froot(nP), add),
        all_true(cs, l, m0) ==> vals_at(cs, l, froot(n as int), f) && vals_at(cs, l, opt_froot(nP), add),
{
    let w = 2 * n - 1; let rt = root_of(w);
    if vals_at(cs, l, froot(n as int), f) {
        assert forall|i: int| 0 <= i < fsubs(rt, w).len() implies tru(cs, l, m, #[trigger] fsubs(rt, w)[i]) by { assert(f[i]@ == mv(cs, l, froot(n as int)[i] as int)); };
        assert(tru_all(cs, l, m, fsubs(rt, w)));
        assert(tru_all(cs, l, m, s));
        assert forall|y: u64| #[trigger] m0.dom().contains(y) implies tru(cs, l, m0, y) by { assert(s.to_set().contains(y)); let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(tru(cs, l, m, s[k])); };
        assert(all_true(cs, l, m0));
        assert forall|i: int| 0 <= i < es.len() implies (#[trigger] vs[i])@ == mv(cs, l, 2 * es[i]) by { assert(in_map(m0, (2 * es[i]) as u64, vs[i])); assert(es[i] < n); assert(tru(cs, l, m0, (2 * es[i]) as u64)); };
        assert forall|i: int| 0 <= i < v.subtrees@.len() implies (#[trigger] v.values@[i])@ == mv(cs, l, v.subtrees@[i] as int) by { assert(in_map(m0, v.subtrees@[i], v.values@[i])); assert(tru(cs, l, m0, v.subtrees@[i])); };
    }
    if all_true(cs, l, m0) {
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i])@ == mv(cs, l, froot(n as int)[i] as int) by { assert(in_map(m, froot(n as int)[i], f[i])); assert(tru(cs, l, m, froot(n as int)[i])); };
        assert forall|i: int| 0 <= i < add.len() implies (#[trigger] add[i])@ == mv(cs, l, opt_froot(nP)[i] as int) by { assert(in_map(m, opt_froot(nP)[i], add[i])); assert(tru(cs, l, m, opt_froot(nP)[i])); };
    }
}
// one more true value goes into the map without a conflict
pub proof fn add_true(cs: Suite, l: Log, w: int, a: Map<u64, lg_nodeData>, x: u64, val: Seq<u8>)
    requires is_log(cs, l, w), all_true(cs, l, a), map_ok(cs, a), val == mv(cs, l, x as int)
    ensures val.len() == hsize(cs), a.dom().contains(x) ==> a[x].value@ == val,
        forall|b: Map<u64, lg_nodeData>| #[trigger] grows(a, b) && b.dom() == a.dom().insert(x) && b[x].value@ == val ==> all_true(cs, l, b)
{
    mv_len(cs, l, x as int, w);
    if a.dom().contains(x) { assert(tru(cs, l, a, x)); }
    assert forall|b: Map<u64, lg_nodeData>| #[trigger] grows(a, b) && b.dom() == a.dom().insert(x) && b[x].value@ == val implies all_true(cs, l, b) by {
        assert forall|y: u64| #[trigger] b.dom().contains(y) implies tru(cs, l, b, y) by { if y != x { assert(a.dom().contains(y)); assert(tru(cs, l, a, y)); } };
    };
}

// the first k of the nodes xs are in the map with these values, besides the base
pub open spec fn holds(m: Map<u64, lg_nodeData>, base: Set<u64>, xs: Seq<u64>, vs: Seq<Slice<u8>>, k: int) -> bool {
    (forall|y: u64| #[trigger] m.dom().contains(y) <==> (base.contains(y) || exists|j: int| 0 <= j < k && xs[j] == y)) && forall|j: int| 0 <= j < k ==> in_map(m, xs[j], #[trigger] vs[j])
}
pub proof fn holds_step(a: Map<u64, lg_nodeData>, b: Map<u64, lg_nodeData>, base: Set<u64>, xs: Seq<u64>, vs: Seq<Slice<u8>>, k: int)
    requires 0 <= k < xs.len(), xs.len() == vs.len(), holds(a, base, xs, vs, k), grows(a, b), b.dom() == a.dom().insert(xs[k]), b[xs[k]].value@ == vs[k]@
    ensures holds(b, base, xs, vs, k + 1)
{
    assert forall|y: u64| #[trigger] b.dom().contains(y) <==> (base.contains(y) || exists|j: int| 0 <= j < k + 1 && xs[j] == y) by {
        if b.dom().contains(y) { if y == xs[k] { } else { assert(a.dom().contains(y)); } }
        if base.contains(y) { assert(a.dom().contains(y)); }
        if exists|j: int| 0 <= j < k + 1 && xs[j] == y { let j = choose|j: int| 0 <= j < k + 1 && xs[j] == y; if j < k { assert(a.dom().contains(y)); } }
    };
    assert forall|j: int| 0 <= j < k + 1 implies in_map(b, xs[j], #[trigger] vs[j]) by { if j < k { assert(in_map(a, xs[j], vs[j])); } };
}

pub proof fn eval_final(cs: Suite, v: lg_Verifier, es: Seq<u64>, vs: Seq<Slice<u8>>, n: u64, nP: Option<u64>, ss: Seq<u64>, lf: Seq<u64>, cp: Seq<u64>, pf: Seq<Slice<u8>>,
        d1: Map<u64, lg_nodeData>, d2: Map<u64, lg_nodeData>, m0: Map<u64, lg_nodeData>, m1: Map<u64, lg_nodeData>, f: Seq<Slice<u8>>, add: Seq<Slice<u8>>)
    requires sizes_ok(es, n, nP, v.prev), vwf(v), cs == v.cs, grows(d1, d2), grows(d2, m0), grows(m0, m1), sound_at(cs, m1, root_of(2 * n - 1), 2 * n - 1, ss), m0.dom() =~= ss.to_set(),
        es.len() == vs.len(), lf == es.map_values(|x: u64| (2 * x) as u64), forall|k: int| 0 <= k < lf.len() ==> in_map(d1, lf[k], #[trigger] vs[k]),
        forall|k: int| 0 <= k < v.subtrees@.len() ==> in_map(d2, v.subtrees@[k], #[trigger] v.values@[k]),
        f.len() == froot(n as int).len(), forall|k: int| 0 <= k < f.len() ==> in_map(m1, froot(n as int)[k], #[trigger] f[k]),
        add.len() == opt_froot(nP).len(), forall|k: int| 0 <= k < add.len() ==> in_map(m1, opt_froot(nP)[k], #[trigger] add[k]),
        forall|l: Log| is_log(cs, l, 2 * n - 1) && #[trigger] all_true(cs, l, m0) ==> all_true(cs, l, m1),
        forall|l: Log| is_log(cs, l, 2 * n - 1) && #[trigger] inp(cs, l, v, es, vs, cp, pf) ==> all_true(cs, l, m0),
        map_ok(cs, m1),
    ensures sized(cs, f), sized(cs, add), forall|l: Log| is_log(cs, l, 2 * n - 1) && #[trigger] vals_at(cs, l, froot(n as int), f) ==>
            leaves_at(cs, l, es, vs) && vals_at(cs, l, v.subtrees@, v.values@) && vals_at(cs, l, opt_froot(nP), add),
        forall|l: Log| is_log(cs, l, 2 * n - 1) && #[trigger] inp(cs, l, v, es, vs, cp, pf) ==> vals_at(cs, l, froot(n as int), f) && vals_at(cs, l, opt_froot(nP), add),
{
    let w = 2 * n - 1;
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k])@.len() == hsize(cs) by { assert(in_map(m1, froot(n as int)[k], f[k])); };
    assert forall|k: int| 0 <= k < add.len() implies (#[trigger] add[k])@.len() == hsize(cs) by { assert(in_map(m1, opt_froot(nP)[k], add[k])); };
    assert forall|k: int| 0 <= k < es.len() implies in_map(m0, (2 * es[k]) as u64, #[trigger] vs[k]) by { assert(in_map(d1, lf[k], vs[k])); assert(in_map(d2, lf[k], vs[k])); };
    assert forall|k: int| 0 <= k < v.subtrees@.len() implies in_map(m0, v.subtrees@[k], #[trigger] v.values@[k]) by { assert(in_map(d2, v.subtrees@[k], v.values@[k])); };
    assert forall|l: Log| is_log(cs, l, w) && #[trigger] vals_at(cs, l, froot(n as int), f) implies
        leaves_at(cs, l, es, vs) && vals_at(cs, l, v.subtrees@, v.values@) && vals_at(cs, l, opt_froot(nP), add) by { eval_sound(cs, l, v, es, vs, n, nP, ss, m0, m1, f, add); };
    assert forall|l: Log| is_log(cs, l, w) && #[trigger] inp(cs, l, v, es, vs, cp, pf) implies vals_at(cs, l, froot(n as int), f) && vals_at(cs, l, opt_froot(nP), add) by { eval_sound(cs, l, v, es, vs, n, nP, ss, m0, m1, f, add); };
}

//@go tree/log.Verifier.Evaluate
pub fn lg_Evaluate(v: lg_Verifier, entries: Slice<u64>, n: u64, nP: Option<u64>, values: Slice<Slice<u8>>, proof_: Slice<Slice<u8>>) -> (r: (Slice<Slice<u8>>, Slice<Slice<u8>>, Option<GoErr>))
    requires vwf(v)
    ensures
        r.2.is_none() ==> sizes_ok(entries@, n, nP, v.prev) && entries@.len() == values@.len() && r.0@.len() == froot(n as int).len() && r.1@.len() == opt_froot(nP).len() && sized(v.cs, r.0@) && sized(v.cs, r.1@),
        // C01
        r.2.is_none() ==> forall|l: Log| is_log(v.cs, l, 2 * n - 1) && #[trigger] vals_at(v.cs, l, froot(n as int), r.0@) ==>
            leaves_at(v.cs, l, entries@, values@) && vals_at(v.cs, l, v.subtrees@, v.values@) && vals_at(v.cs, l, opt_froot(nP), r.1@),
        // C02
        sizes_ok(entries@, n, nP, v.prev) ==> forall|l: Log| is_log(v.cs, l, 2 * n - 1) && #[trigger] inp(v.cs, l, v, entries@, values@, copath_seq(entries@, n, nP, v.prev), proof_@) ==>
            r.2.is_none() && vals_at(v.cs, l, froot(n as int), r.0@) && vals_at(v.cs, l, opt_froot(nP), r.1@),
//@hint entry
    let ghost w = 2 * n - 1;
    let ghost rt = root_of(2 * n - 1);
    let ghost cp = copath_seq(entries@, n, nP, v.prev);
    let ghost mut m0 = Map::<u64, lg_nodeData>::empty();
    let ghost mut m1 = Map::<u64, lg_nodeData>::empty();
    let ghost mut d1 = Map::<u64, lg_nodeData>::empty();
    let ghost mut d2 = Map::<u64, lg_nodeData>::empty();
    let ghost mut pre = Seq::<u64>::empty();
    let ghost mut ss = Seq::<u64>::empty();
    let ghost lf = entries@.map_values(|x: u64| (2 * x) as u64);
    assert(forall|l: Log| #[trigger] leaves_at(v.cs, l, entries@, values@) && sizes_ok(entries@, n, nP, v.prev) ==> vals_at(v.cs, l, lf, values@)) by {
        assert forall|l: Log| #[trigger] leaves_at(v.cs, l, entries@, values@) && sizes_ok(entries@, n, nP, v.prev) implies vals_at(v.cs, l, lf, values@) by {
            assert forall|i: int| 0 <= i < lf.len() implies (#[trigger] values@[i])@ == mv(v.cs, l, lf[i] as int) by { assert(entries@[i] < n); } } };
//@loop 1
    invariant forall|k: int| 0 <= k < IDX ==> #[trigger] entries@[k] < n, SEQ == entries,
//@hint before call lm_BatchCopath 1
    proof { root_exists(w); known_full(entries@, n, nP, v.prev); }
//@loop 2
    invariant SEQ == entries, map_ok(v.cs, nodes@), !nodes.nil@, lf.len() == values@.len(), SEQ@.len() == lf.len(),
        holds(nodes@, Set::<u64>::empty(), lf, values@, IDX as int),
        forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) ==> all_true(v.cs, l, nodes@),
//@hint before call lg_addToMap 1
    let ghost pm = nodes@;
    let ghost ix = i as int;
//@hint after call lg_addToMap 1
    proof {
        assert forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) implies RES.is_none() && all_true(v.cs, l, nodes@) by {
            assert(values@[ix]@ == mv(v.cs, l, lf[ix] as int)); add_true(v.cs, l, w, pm, lf[ix], values@[ix]@); };
        if RES.is_none() { holds_step(pm, nodes@, Set::<u64>::empty(), lf, values@, ix); }
    }
//@hint after loop 2
    proof { d1 = nodes@; assert(nodes@.dom() =~= leaf_set(entries@)); }
//@loop 3
    invariant SEQ == v.subtrees, map_ok(v.cs, nodes@), !nodes.nil@, v.subtrees@.len() == v.values@.len(), SEQ@.len() == v.subtrees@.len(),
        holds(nodes@, d1.dom(), v.subtrees@, v.values@, IDX as int),
        forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) ==> all_true(v.cs, l, nodes@),
        grows(d1, nodes@),
//@hint before call lg_addToMap 2
    let ghost pm = nodes@;
    let ghost ix = i as int;
//@hint after call lg_addToMap 2
    proof {
        assert forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) implies RES.is_none() && all_true(v.cs, l, nodes@) by {
            assert(v.values@[ix]@ == mv(v.cs, l, v.subtrees@[ix] as int)); add_true(v.cs, l, w, pm, v.subtrees@[ix], v.values@[ix]@); };
        if RES.is_none() { holds_step(pm, nodes@, d1.dom(), v.subtrees@, v.values@, ix); }
    }
//@hint after loop 3
    proof { d2 = nodes@; assert(nodes@.dom() =~= known(entries@, None, v.prev)); }
//@loop 4
    invariant SEQ == copath, map_ok(v.cs, nodes@), !nodes.nil@, cp.len() == proof_@.len(), SEQ@.len() == cp.len(),
        holds(nodes@, d2.dom(), cp, proof_@, IDX as int),
        forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) ==> all_true(v.cs, l, nodes@),
        grows(d2, nodes@),
//@hint before call lg_addToMap 3
    let ghost pm = nodes@;
    let ghost ix = i as int;
//@hint after call lg_addToMap 3
    proof {
        assert forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) implies RES.is_none() && all_true(v.cs, l, nodes@) by {
            assert(proof_@[ix]@ == mv(v.cs, l, cp[ix] as int)); add_true(v.cs, l, w, pm, cp[ix], proof_@[ix]@); };
        if RES.is_none() { holds_step(pm, nodes@, d2.dom(), cp, proof_@, ix); }
    }
//@hint after loop 4
    proof { m0 = nodes@; assert(m0.dom() =~= given(entries@, n, nP, v.prev)); }
//@loop 5
    invariant nodes@ == m0, sorted@ =~= SEQ@.subrange(0, IDX as int), SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> m0.dom().contains(#[trigger] SEQ@[i]),
        forall|k: u64| m0.dom().contains(k) ==> exists|i: int| 0 <= i < SEQ@.len() && SEQ@[i] == k,
//@hint after loop 5
    proof { pre = sorted@; assert(pre =~= SEQ5@); assert(pre.no_duplicates()); assert forall|y: u64| pre.contains(y) == m0.dom().contains(y) by { if m0.dom().contains(y) { let i = choose|i: int| 0 <= i < SEQ5@.len() && SEQ5@[i] == y; assert(pre[i] == y); } if pre.contains(y) { let i = choose|i: int| 0 <= i < pre.len() && pre[i] == y; assert(m0.dom().contains(SEQ5@[i])); } }; }
//@hint before call lg_evaluate 1
    proof {
        assert(sorted@.to_set() =~= m0.dom()) by { assert forall|y: u64| sorted@.to_set().contains(y) == m0.dom().contains(y) by { assert(sorted@.contains(y) == pre.contains(y)); }; };
        assert forall|i: int| 0 <= i < sorted@.len() implies m0.dom().contains(#[trigger] sorted@[i]) by { assert(sorted@.to_set().contains(sorted@[i])); };
        given_ok(entries@, n, nP, v.prev, sorted@);
        ss = sorted@;
    }
//@hint after call lg_evaluate 1
    proof { m1 = nodes@; assert(forall|l: Log| is_log(v.cs, l, w) && #[trigger] inp(v.cs, l, v, entries@, values@, cp, proof_@) ==> RES.is_none() && all_true(v.cs, l, m1));
        if RES.is_none() {
            assert forall|i: int| 0 <= i < froot(n as int).len() implies #[trigger] m1.dom().contains(froot(n as int)[i]) by { covered_use(m1, rt, w, ss.to_set(), froot(n as int)[i]); };
            assert forall|i: int| 0 <= i < opt_froot(nP).len() implies #[trigger] m1.dom().contains(opt_froot(nP)[i]) by { covered_use(m1, rt, w, ss.to_set(), opt_froot(nP)[i]); };
        } }
//@loop 6
    invariant nodes@ == m1, SEQ@ == froot(n as int), fullSubtrees@.len() == IDX, forall|k: int| 0 <= k < IDX ==> in_map(m1, froot(n as int)[k], #[trigger] fullSubtrees@[k]),
        map_ok(v.cs, m1), forall|i: int| 0 <= i < SEQ@.len() ==> #[trigger] m1.dom().contains(SEQ@[i]),
//@hint before call lm_Root 3
    proof { root_exists(2 * nP.unwrap() - 1); }
//@loop 7
    invariant nodes@ == m1, SEQ@ == opt_froot(nP), additional@.len() == IDX, forall|k: int| 0 <= k < IDX ==> in_map(m1, opt_froot(nP)[k], #[trigger] additional@[k]),
        map_ok(v.cs, m1), forall|i: int| 0 <= i < SEQ@.len() ==> #[trigger] m1.dom().contains(SEQ@[i]),
//@hint return 11
    proof { eval_final(v.cs, v, entries@, values@, n, nP, ss, lf, cp, proof_@, d1, d2, m0, m1, fullSubtrees@, additional@); }
//@end

// ---- C01: with the root check, the accepted values are the log's
pub proof fn prop_log_sound(v: lg_Verifier, es: Seq<u64>, vs: Seq<Slice<u8>>, n: u64, nP: Option<u64>, f: Seq<Slice<u8>>, add: Seq<Slice<u8>>, l: Log)
    requires okn(n), f.len() == froot(n as int).len(), sized(v.cs, f), is_log(v.cs, l, 2 * n - 1),
        // what Evaluate and Root ensure
        forall|l: Log| is_log(v.cs, l, 2 * n - 1) && #[trigger] vals_at(v.cs, l, froot(n as int), f) ==>
            leaves_at(v.cs, l, es, vs) && vals_at(v.cs, l, v.subtrees@, v.values@) && vals_at(v.cs, l, opt_froot(nP), add),
        fold_used(v.cs, froot(n as int), vals(f), 0), fold_used(v.cs, froot(n as int), true_full(v.cs, l, n as int), 0),
        // the root that was compared is that of l
        fold_root(v.cs, froot(n as int), vals(f), 0).1 == log_root(v.cs, l, n as int),
    ensures leaves_at(v.cs, l, es, vs), vals_at(v.cs, l, v.subtrees@, v.values@), vals_at(v.cs, l, opt_froot(nP), add)
{
    root_exists(2 * n - 1); fsubs_props(root_of(2 * n - 1), 2 * n - 1);
    let t = true_full(v.cs, l, n as int);
    let xs = froot(n as int);
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).len() == hsize(v.cs) by { mv_len(v.cs, l, xs[k] as int, 2 * n - 1); };
    assert forall|k: int| 0 <= k < vals(f).len() implies (#[trigger] vals(f)[k]).len() == hsize(v.cs) by { assert(f[k]@.len() == hsize(v.cs)); };
    root_inj(v.cs, xs, vals(f), t, 0);
    assert forall|i: int| 0 <= i < xs.len() implies (#[trigger] f[i])@ == mv(v.cs, l, xs[i] as int) by { assert(vals(f)[i] == f[i]@); assert(t[i] == mv(v.cs, l, xs[i] as int)); };
    assert(vals_at(v.cs, l, xs, f));
}
