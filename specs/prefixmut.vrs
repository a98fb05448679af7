//@import prefix.vrs
//@nonnil tree/prefix.node tree/prefix.parentNode tree/prefix.PrefixProof tree/prefix.Entry
// ---- the content of a prefix tree, and the one tree that holds it
pub type Key = Seq<u8>;
pub type M = spec_fn(Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn side(m: M, d: int, b: bool) -> M { |k: Seq<u8>| if bit(k, d) == b { m(k) } else { None::<Seq<u8>> } }
pub open spec fn none(m: M) -> bool { forall|k: Seq<u8>| (#[trigger] m(k)).is_none() }
pub open spec fn only(m: M, k: Seq<u8>, c: Seq<u8>) -> bool { m(k) == Some(c) && forall|j: Seq<u8>| j != k ==> (#[trigger] m(j)).is_none() }
pub open spec fn one(m: M) -> bool { exists|k: Seq<u8>, c: Seq<u8>| only(m, k, c) }
pub open spec fn multi(m: M) -> bool { exists|j: Seq<u8>, k: Seq<u8>| j != k && (#[trigger] m(j)).is_some() && (#[trigger] m(k)).is_some() }
// the tree that holds m, whose keys have w bits, at depth d
pub open spec fn canon(m: M, w: int, d: int) -> T decreases w - d
{
    if !multi(m) { if none(m) { T::E } else { let k = choose|k: Seq<u8>| (#[trigger] m(k)).is_some(); T::L(k, m(k).unwrap()) } }
    else if d >= w { T::Z }
    else { T::P(Box::new(canon(side(m, d, false), w, d + 1)), Box::new(canon(side(m, d, true), w, d + 1)), false) }
}
// m after removing r and adding a
pub open spec fn upd(m: M, a: M, r: KS) -> M { |k: Seq<u8>| if a(k).is_some() { a(k) } else if r(k) { None::<Seq<u8>> } else { m(k) } }
pub proof fn upd_side(m: M, a: M, r: KS, d: int, b: bool) ensures upd(side(m, d, b), side(a, d, b), kside(r, d, b)) == side(upd(m, a, r), d, b)
{ assert(upd(side(m, d, b), side(a, d, b), kside(r, d, b)) =~= side(upd(m, a, r), d, b)); }
// t stands for m at depth d; subtrees that are not shown have the hash they should have
pub open spec fn fits(cs: Suite, t: T, m: M, d: int) -> bool decreases t
{
    match t {
        T::E => none(m), T::L(k, c) => only(m, k, c), T::X(h) => h == th(cs, canon(m, 8 * hsize(cs), d)), T::Z => false,
        T::P(l, r, _) => d < 8 * hsize(cs) && multi(m) && fits(cs, *l, side(m, d, false), d + 1) && fits(cs, *r, side(m, d, true), d + 1),
    }
}
pub proof fn fits_hash(cs: Suite, t: T, m: M, d: int) requires fits(cs, t, m, d) ensures th(cs, t) == th(cs, canon(m, 8 * hsize(cs), d)) decreases t
{
    let w = 8 * hsize(cs);
    match t {
        T::P(l, r, _) => { fits_hash(cs, *l, side(m, d, false), d + 1); fits_hash(cs, *r, side(m, d, true), d + 1); reveal_with_fuel(canon, 2); reveal_with_fuel(th, 2); }
        T::L(k, c) => { assert(m(k).is_some()); let k2 = choose|k2: Seq<u8>| (#[trigger] m(k2)).is_some(); assert(k2 == k); assert(canon(m, w, d) == T::L(k, c)); }
        T::E => { assert(canon(m, w, d) == T::E); }
        _ => {}
    }
}
// every subtree that is not shown holds at least two entries
pub open spec fn safe(t: T, m: M, d: int) -> bool decreases t
{ match t { T::X(_) => multi(m), T::P(l, r, _) => safe(*l, side(m, d, false), d + 1) && safe(*r, side(m, d, true), d + 1), _ => true } }

// ---- lists of additions and removals
pub open spec fn am_at(s: Seq<px_Entry>, k: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && s[i].VrfOutput@ == k }
pub open spec fn am(s: Seq<px_Entry>) -> M { |k: Seq<u8>| if exists|i: int| am_at(s, k, i) { Some(s[choose|i: int| am_at(s, k, i)].Commitment@) } else { None::<Seq<u8>> } }
pub open spec fn rs_at(s: Seq<Slice<u8>>, k: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && s[i]@ == k }
pub open spec fn rs(s: Seq<Slice<u8>>) -> KS { |k: Seq<u8>| exists|i: int| rs_at(s, k, i) }
// distinct keys of n bytes, in order, that agree on their first d bits
pub open spec fn alist(s: Seq<px_Entry>, n: int, d: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).VrfOutput@.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp((#[trigger] s[i]).VrfOutput@, (#[trigger] s[j]).VrfOutput@) < 0
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> agree((#[trigger] s[i]).VrfOutput@, (#[trigger] s[j]).VrfOutput@, d)
}
pub open spec fn rlist(s: Seq<Slice<u8>>, n: int, d: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp((#[trigger] s[i])@, (#[trigger] s[j])@) <= 0
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> agree((#[trigger] s[i])@, (#[trigger] s[j])@, d)
}
pub proof fn byte_bits(x: u8, y: u8)
    ensures x != y ==> exists|s: int| 0 <= s < 8 && (x >> ((7 - s) as u8)) & 1u8 != #[trigger] ((y >> ((7 - s) as u8)) & 1u8)
{
    if forall|s: int| 0 <= s < 8 ==> (x >> ((7 - s) as u8)) & 1u8 == #[trigger] ((y >> ((7 - s) as u8)) & 1u8) {
        assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8));
        assert((x >> ((7 - 2) as u8)) & 1u8 == ((y >> ((7 - 2) as u8)) & 1u8)); assert((x >> ((7 - 3) as u8)) & 1u8 == ((y >> ((7 - 3) as u8)) & 1u8));
        assert((x >> ((7 - 4) as u8)) & 1u8 == ((y >> ((7 - 4) as u8)) & 1u8)); assert((x >> ((7 - 5) as u8)) & 1u8 == ((y >> ((7 - 5) as u8)) & 1u8));
        assert((x >> ((7 - 6) as u8)) & 1u8 == ((y >> ((7 - 6) as u8)) & 1u8)); assert((x >> ((7 - 7) as u8)) & 1u8 == ((y >> ((7 - 7) as u8)) & 1u8));
        assert(x == y) by (bit_vector) requires (x >> 7u8) & 1u8 == ((y >> 7u8) & 1u8), (x >> 6u8) & 1u8 == ((y >> 6u8) & 1u8), (x >> 5u8) & 1u8 == ((y >> 5u8) & 1u8), (x >> 4u8) & 1u8 == ((y >> 4u8) & 1u8), (x >> 3u8) & 1u8 == ((y >> 3u8) & 1u8), (x >> 2u8) & 1u8 == ((y >> 2u8) & 1u8), (x >> 1u8) & 1u8 == ((y >> 1u8) & 1u8), (x >> 0u8) & 1u8 == ((y >> 0u8) & 1u8);
    }
}
// keys that agree on all bits are equal
pub proof fn agree_all(a: Seq<u8>, b: Seq<u8>, n: int) requires a.len() == n, b.len() == n, agree(a, b, 8 * n) ensures a == b
{
    assert forall|i: int| 0 <= i < n implies a[i] == b[i] by {
        byte_bits(a[i], b[i]);
        if a[i] != b[i] {
            let s = choose|s: int| 0 <= s < 8 && (a[i] >> ((7 - s) as u8)) & 1u8 != #[trigger] ((b[i] >> ((7 - s) as u8)) & 1u8);
            let p = 8 * i + s; assert(p / 8 == i && p % 8 == s); assert(bit(a, p) == bit(b, p));
            bit01(a[i], (7 - s) as u8); bit01(b[i], (7 - s) as u8);
        }
    }
    assert(a =~= b);
}
pub proof fn bit01(x: u8, s: u8) requires s < 8 ensures (x >> s) & 1u8 == 0 || (x >> s) & 1u8 == 1 { assert((x >> s) & 1u8 == 0 || (x >> s) & 1u8 == 1) by (bit_vector); }
// the first differing bit decides the order
pub proof fn byte_gt(x: u8, y: u8, s: int) requires 0 <= s < 8, forall|j: int| 0 <= j < s ==> (x >> ((7 - j) as u8)) & 1u8 == #[trigger] ((y >> ((7 - j) as u8)) & 1u8), (x >> ((7 - s) as u8)) & 1u8 == 1u8, (y >> ((7 - s) as u8)) & 1u8 != 1u8 ensures x > y
{
    if s == 0 { assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == 1u8, (y >> 7u8) & 1u8 != 1u8; }
    if s == 1 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == 1u8, (y >> 6u8) & 1u8 != 1u8; }
    if s == 2 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == (y >> 6u8) & 1u8, (x >> 5u8) & 1u8 == 1u8, (y >> 5u8) & 1u8 != 1u8; }
    if s == 3 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8)); assert((x >> ((7 - 2) as u8)) & 1u8 == ((y >> ((7 - 2) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == (y >> 6u8) & 1u8, (x >> 5u8) & 1u8 == (y >> 5u8) & 1u8, (x >> 4u8) & 1u8 == 1u8, (y >> 4u8) & 1u8 != 1u8; }
    if s == 4 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8)); assert((x >> ((7 - 2) as u8)) & 1u8 == ((y >> ((7 - 2) as u8)) & 1u8)); assert((x >> ((7 - 3) as u8)) & 1u8 == ((y >> ((7 - 3) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == (y >> 6u8) & 1u8, (x >> 5u8) & 1u8 == (y >> 5u8) & 1u8, (x >> 4u8) & 1u8 == (y >> 4u8) & 1u8, (x >> 3u8) & 1u8 == 1u8, (y >> 3u8) & 1u8 != 1u8; }
    if s == 5 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8)); assert((x >> ((7 - 2) as u8)) & 1u8 == ((y >> ((7 - 2) as u8)) & 1u8)); assert((x >> ((7 - 3) as u8)) & 1u8 == ((y >> ((7 - 3) as u8)) & 1u8)); assert((x >> ((7 - 4) as u8)) & 1u8 == ((y >> ((7 - 4) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == (y >> 6u8) & 1u8, (x >> 5u8) & 1u8 == (y >> 5u8) & 1u8, (x >> 4u8) & 1u8 == (y >> 4u8) & 1u8, (x >> 3u8) & 1u8 == (y >> 3u8) & 1u8, (x >> 2u8) & 1u8 == 1u8, (y >> 2u8) & 1u8 != 1u8; }
    if s == 6 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8)); assert((x >> ((7 - 2) as u8)) & 1u8 == ((y >> ((7 - 2) as u8)) & 1u8)); assert((x >> ((7 - 3) as u8)) & 1u8 == ((y >> ((7 - 3) as u8)) & 1u8)); assert((x >> ((7 - 4) as u8)) & 1u8 == ((y >> ((7 - 4) as u8)) & 1u8)); assert((x >> ((7 - 5) as u8)) & 1u8 == ((y >> ((7 - 5) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == (y >> 6u8) & 1u8, (x >> 5u8) & 1u8 == (y >> 5u8) & 1u8, (x >> 4u8) & 1u8 == (y >> 4u8) & 1u8, (x >> 3u8) & 1u8 == (y >> 3u8) & 1u8, (x >> 2u8) & 1u8 == (y >> 2u8) & 1u8, (x >> 1u8) & 1u8 == 1u8, (y >> 1u8) & 1u8 != 1u8; }
    if s == 7 { assert((x >> ((7 - 0) as u8)) & 1u8 == ((y >> ((7 - 0) as u8)) & 1u8)); assert((x >> ((7 - 1) as u8)) & 1u8 == ((y >> ((7 - 1) as u8)) & 1u8)); assert((x >> ((7 - 2) as u8)) & 1u8 == ((y >> ((7 - 2) as u8)) & 1u8)); assert((x >> ((7 - 3) as u8)) & 1u8 == ((y >> ((7 - 3) as u8)) & 1u8)); assert((x >> ((7 - 4) as u8)) & 1u8 == ((y >> ((7 - 4) as u8)) & 1u8)); assert((x >> ((7 - 5) as u8)) & 1u8 == ((y >> ((7 - 5) as u8)) & 1u8)); assert((x >> ((7 - 6) as u8)) & 1u8 == ((y >> ((7 - 6) as u8)) & 1u8)); assert(x > y) by (bit_vector) requires (x >> 7u8) & 1u8 == (y >> 7u8) & 1u8, (x >> 6u8) & 1u8 == (y >> 6u8) & 1u8, (x >> 5u8) & 1u8 == (y >> 5u8) & 1u8, (x >> 4u8) & 1u8 == (y >> 4u8) & 1u8, (x >> 3u8) & 1u8 == (y >> 3u8) & 1u8, (x >> 2u8) & 1u8 == (y >> 2u8) & 1u8, (x >> 1u8) & 1u8 == (y >> 1u8) & 1u8, (x >> 0u8) & 1u8 == 1u8, (y >> 0u8) & 1u8 != 1u8; }
}
pub proof fn cmp_at(a: Seq<u8>, b: Seq<u8>, q: int) requires 0 <= q < a.len(), q < b.len(), forall|i: int| 0 <= i < q ==> a[i] == b[i], a[q] > b[q] ensures cmp(a, b) == 1 decreases q
{ if q > 0 { assert(a[0] == b[0]); let x = a.drop_first(); let y = b.drop_first(); assert forall|i: int| 0 <= i < q - 1 implies x[i] == y[i] by { assert(a[i + 1] == b[i + 1]); } assert(x[q - 1] == a[q]); assert(y[q - 1] == b[q]); cmp_at(x, y, q - 1); } }
pub proof fn same_byte(a: Seq<u8>, b: Seq<u8>, i: int, d: int) requires agree(a, b, d), 0 <= i, 8 * i + 8 <= d ensures a[i] == b[i]
{
    byte_bits(a[i], b[i]);
    if a[i] != b[i] {
        let s = choose|s: int| 0 <= s < 8 && (a[i] >> ((7 - s) as u8)) & 1u8 != #[trigger] ((b[i] >> ((7 - s) as u8)) & 1u8);
        let p = 8 * i + s; assert(p / 8 == i && p % 8 == s); assert(bit(a, p) == bit(b, p));
        bit01(a[i], (7 - s) as u8); bit01(b[i], (7 - s) as u8);
    }
}
pub proof fn cmp_bit(a: Seq<u8>, b: Seq<u8>, n: int, d: int) requires a.len() == n, b.len() == n, 0 <= d < 8 * n, agree(a, b, d), cmp(a, b) <= 0, bit(a, d) ensures bit(b, d)
{
    if !bit(b, d) {
        let q = d / 8; let s = d % 8;
        assert forall|i: int| 0 <= i < q implies a[i] == b[i] by { same_byte(a, b, i, d); }
        assert forall|j: int| 0 <= j < s implies (a[q] >> ((7 - j) as u8)) & 1u8 == #[trigger] ((b[q] >> ((7 - j) as u8)) & 1u8) by {
            let p = 8 * q + j; assert(p / 8 == q && p % 8 == j); assert(bit(a, p) == bit(b, p)); bit01(a[q], (7 - j) as u8); bit01(b[q], (7 - j) as u8);
        }
        byte_gt(a[q], b[q], s); cmp_at(a, b, q);
    }
}

pub proof fn am_empty(s: Seq<px_Entry>, d: int, b: bool) requires s.len() == 0 ensures am(s) == side(am(s), d, b), none(am(s))
{ assert forall|k: Seq<u8>| (#[trigger] am(s)(k)).is_none() by { assert forall|i: int| !am_at(s, k, i) by {} } assert(am(s) =~= side(am(s), d, b)); }
pub proof fn am_of(s: Seq<px_Entry>, n: int, d: int, i: int) requires alist(s, n, d), 0 <= i < s.len() ensures am(s)(s[i].VrfOutput@) == Some(s[i].Commitment@)
{
    let k = s[i].VrfOutput@; assert(am_at(s, k, i)); let j = choose|j: int| am_at(s, k, j);
    if j != i { cmp_vals(s[i].VrfOutput@, s[j].VrfOutput@); if i < j { assert(cmp(s[i].VrfOutput@, s[j].VrfOutput@) < 0); } else { assert(cmp(s[j].VrfOutput@, s[i].VrfOutput@) < 0); } cmp_vals(s[j].VrfOutput@, s[i].VrfOutput@); }
}
pub proof fn am_split(s: Seq<px_Entry>, a: Seq<px_Entry>, b: Seq<px_Entry>, n: int, d: int)
    requires alist(s, n, d), a + b == s, 0 <= d, forall|i: int| 0 <= i < a.len() ==> !bit((#[trigger] a[i]).VrfOutput@, d), forall|i: int| 0 <= i < b.len() ==> bit((#[trigger] b[i]).VrfOutput@, d)
    ensures alist(a, n, d + 1), alist(b, n, d + 1), am(a) == side(am(s), d, false), am(b) == side(am(s), d, true)
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == s[i] by {}
    assert forall|i: int| 0 <= i < b.len() implies b[i] == s[a.len() + i] by {}
    assert(alist(a, n, d + 1)) by {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies cmp((#[trigger] a[i]).VrfOutput@, (#[trigger] a[j]).VrfOutput@) < 0 by { assert(cmp(s[i].VrfOutput@, s[j].VrfOutput@) < 0); }
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies agree((#[trigger] a[i]).VrfOutput@, (#[trigger] a[j]).VrfOutput@, d + 1) by { assert(agree(s[i].VrfOutput@, s[j].VrfOutput@, d)); }
    }
    assert(alist(b, n, d + 1)) by {
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies cmp((#[trigger] b[i]).VrfOutput@, (#[trigger] b[j]).VrfOutput@) < 0 by { assert(cmp(s[a.len() + i].VrfOutput@, s[a.len() + j].VrfOutput@) < 0); }
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies agree((#[trigger] b[i]).VrfOutput@, (#[trigger] b[j]).VrfOutput@, d + 1) by { assert(agree(s[a.len() + i].VrfOutput@, s[a.len() + j].VrfOutput@, d)); }
    }
    assert forall|k: Seq<u8>| am(a)(k) == #[trigger] side(am(s), d, false)(k) by {
        if exists|i: int| am_at(s, k, i) { let i = choose|i: int| am_at(s, k, i); if i < a.len() { am_of(a, n, d, i); am_of(s, n, d, i); } else { assert(b[i - a.len()] == s[i]); assert(bit(k, d)); assert forall|j: int| !am_at(a, k, j) by {} } }
        else { assert forall|j: int| !am_at(a, k, j) by { if am_at(a, k, j) { assert(am_at(s, k, j)); } } }
    }
    assert(am(a) =~= side(am(s), d, false));
    assert forall|k: Seq<u8>| am(b)(k) == #[trigger] side(am(s), d, true)(k) by {
        if exists|i: int| am_at(s, k, i) { let i = choose|i: int| am_at(s, k, i); if i >= a.len() { am_of(b, n, d, i - a.len()); am_of(s, n, d, i); } else { assert(a[i] == s[i]); assert(!bit(k, d)); assert forall|j: int| !am_at(b, k, j) by {} } }
        else { assert forall|j: int| !am_at(b, k, j) by { if am_at(b, k, j) { assert(am_at(s, k, a.len() + j)); } } }
    }
    assert(am(b) =~= side(am(s), d, true));
}
//@go tree/prefix.splitEntries@lit1
pub fn px_splitEntries_lit(depth: i64, entry: px_Entry, u: bool) -> (r: i64) requires 0 <= depth < 8 * entry.VrfOutput@.len() ensures r == (if bit(entry.VrfOutput@, depth as int) { 0int } else { -1 })
//@end
//@ext slices.BinarySearchFunc[Slice<px_Entry>,px_Entry,bool]#tree/prefix.splitEntries@lit1
pub fn bs_entries(s: Slice<px_Entry>, target: bool, depth: i64) -> (r: (i64, bool))
    requires forall|i: int| 0 <= i < s@.len() ==> 0 <= depth < 8 * (#[trigger] s@[i]).VrfOutput@.len(), forall|i: int, j: int| 0 <= i < j < s@.len() && bit((#[trigger] s@[i]).VrfOutput@, depth as int) ==> bit((#[trigger] s@[j]).VrfOutput@, depth as int)
    ensures 0 <= r.0 <= s@.len(), forall|i: int| 0 <= i < r.0 ==> !bit((#[trigger] s@[i]).VrfOutput@, depth as int), forall|i: int| r.0 <= i < s@.len() ==> bit((#[trigger] s@[i]).VrfOutput@, depth as int)
//@end
pub open spec fn nk(s: Seq<px_Entry>) -> int { if s.len() == 0 { 0 } else { s[0].VrfOutput@.len() as int } }
//@go tree/prefix.splitEntries
pub fn px_splitEntries(entries: Slice<px_Entry>, depth: i64) -> (r: (Slice<px_Entry>, Slice<px_Entry>))
    requires entries@.len() > 0 ==> alist(entries@, nk(entries@), depth as int) && 0 <= depth < 8 * nk(entries@)
    ensures alist(r.0@, nk(entries@), depth + 1), alist(r.1@, nk(entries@), depth + 1), am(r.0@) == side(am(entries@), depth as int, false), am(r.1@) == side(am(entries@), depth as int, true),
        r.0@.len() + r.1@.len() == entries@.len()
//@hint before call bs_entries 1
    proof { assert forall|i: int, j: int| 0 <= i < j < entries@.len() && bit((#[trigger] entries@[i]).VrfOutput@, depth as int) implies bit((#[trigger] entries@[j]).VrfOutput@, depth as int) by { cmp_bit(entries@[i].VrfOutput@, entries@[j].VrfOutput@, nk(entries@), depth as int); } }
//@hint return 1
    proof { am_empty(entries@, depth as int, false); am_empty(entries@, depth as int, true); assert(ret.0@ =~= entries@); assert(ret.1@ =~= entries@); }
//@hint return 2
    proof { assert(ret.0@ + ret.1@ =~= entries@); am_split(entries@, ret.0@, ret.1@, nk(entries@), depth as int); }
//@end

//@go tree/prefix.splitVrfOutputs@lit1
pub fn px_splitVrfOutputs_lit(depth: i64, vrfOutput: Slice<u8>, u: bool) -> (r: i64) requires 0 <= depth < 8 * vrfOutput@.len() ensures r == (if bit(vrfOutput@, depth as int) { 0int } else { -1 })
//@end
//@ext slices.BinarySearchFunc[Slice<Slice<u8>>,Slice<u8>,bool]#tree/prefix.splitVrfOutputs@lit1
pub fn bs_outputs(s: Slice<Slice<u8>>, target: bool, depth: i64) -> (r: (i64, bool))
    requires forall|i: int| 0 <= i < s@.len() ==> 0 <= depth < 8 * (#[trigger] s@[i])@.len(), forall|i: int, j: int| 0 <= i < j < s@.len() && bit((#[trigger] s@[i])@, depth as int) ==> bit((#[trigger] s@[j])@, depth as int)
    ensures 0 <= r.0 <= s@.len(), forall|i: int| 0 <= i < r.0 ==> !bit((#[trigger] s@[i])@, depth as int), forall|i: int| r.0 <= i < s@.len() ==> bit((#[trigger] s@[i])@, depth as int)
//@end
pub open spec fn nr(s: Seq<Slice<u8>>) -> int { if s.len() == 0 { 0 } else { s[0]@.len() as int } }
pub proof fn rs_empty(s: Seq<Slice<u8>>, d: int, b: bool) requires s.len() == 0 ensures rs(s) == kside(rs(s), d, b), knone(rs(s))
{ assert forall|k: Seq<u8>| !(#[trigger] rs(s)(k)) by { assert forall|i: int| !rs_at(s, k, i) by {} } assert(rs(s) =~= kside(rs(s), d, b)); }
pub proof fn rs_split(s: Seq<Slice<u8>>, a: Seq<Slice<u8>>, b: Seq<Slice<u8>>, n: int, d: int)
    requires rlist(s, n, d), a + b == s, 0 <= d, forall|i: int| 0 <= i < a.len() ==> !bit((#[trigger] a[i])@, d), forall|i: int| 0 <= i < b.len() ==> bit((#[trigger] b[i])@, d)
    ensures rlist(a, n, d + 1), rlist(b, n, d + 1), rs(a) == kside(rs(s), d, false), rs(b) == kside(rs(s), d, true)
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == s[i] by {}
    assert forall|i: int| 0 <= i < b.len() implies b[i] == s[a.len() + i] by {}
    assert(rlist(a, n, d + 1)) by {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies cmp((#[trigger] a[i])@, (#[trigger] a[j])@) <= 0 by { assert(cmp(s[i]@, s[j]@) <= 0); }
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies agree((#[trigger] a[i])@, (#[trigger] a[j])@, d + 1) by { assert(agree(s[i]@, s[j]@, d)); }
    }
    assert(rlist(b, n, d + 1)) by {
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies cmp((#[trigger] b[i])@, (#[trigger] b[j])@) <= 0 by { assert(cmp(s[a.len() + i]@, s[a.len() + j]@) <= 0); }
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies agree((#[trigger] b[i])@, (#[trigger] b[j])@, d + 1) by { assert(agree(s[a.len() + i]@, s[a.len() + j]@, d)); }
    }
    assert forall|k: Seq<u8>| rs(a)(k) == #[trigger] kside(rs(s), d, false)(k) by {
        if rs(a)(k) { let i = choose|i: int| rs_at(a, k, i); assert(rs_at(s, k, i)); }
        if rs(s)(k) && !bit(k, d) { let i = choose|i: int| rs_at(s, k, i); if i >= a.len() { assert(b[i - a.len()] == s[i]); } assert(rs_at(a, k, i)); }
    }
    assert(rs(a) =~= kside(rs(s), d, false));
    assert forall|k: Seq<u8>| rs(b)(k) == #[trigger] kside(rs(s), d, true)(k) by {
        if rs(b)(k) { let i = choose|i: int| rs_at(b, k, i); assert(rs_at(s, k, a.len() + i)); }
        if rs(s)(k) && bit(k, d) { let i = choose|i: int| rs_at(s, k, i); if i < a.len() { assert(a[i] == s[i]); } assert(rs_at(b, k, i - a.len())); }
    }
    assert(rs(b) =~= kside(rs(s), d, true));
}
//@go tree/prefix.splitVrfOutputs
pub fn px_splitVrfOutputs(vrfOutputs: Slice<Slice<u8>>, depth: i64) -> (r: (Slice<Slice<u8>>, Slice<Slice<u8>>))
    requires vrfOutputs@.len() > 0 ==> rlist(vrfOutputs@, nr(vrfOutputs@), depth as int) && 0 <= depth < 8 * nr(vrfOutputs@)
    ensures rlist(r.0@, nr(vrfOutputs@), depth + 1), rlist(r.1@, nr(vrfOutputs@), depth + 1), rs(r.0@) == kside(rs(vrfOutputs@), depth as int, false), rs(r.1@) == kside(rs(vrfOutputs@), depth as int, true),
        r.0@.len() + r.1@.len() == vrfOutputs@.len()
//@hint before call bs_outputs 1
    proof { assert forall|i: int, j: int| 0 <= i < j < vrfOutputs@.len() && bit((#[trigger] vrfOutputs@[i])@, depth as int) implies bit((#[trigger] vrfOutputs@[j])@, depth as int) by { cmp_bit(vrfOutputs@[i]@, vrfOutputs@[j]@, nr(vrfOutputs@), depth as int); } }
//@hint return 1
    proof { rs_empty(vrfOutputs@, depth as int, false); rs_empty(vrfOutputs@, depth as int, true); assert(ret.0@ =~= vrfOutputs@); assert(ret.1@ =~= vrfOutputs@); }
//@hint return 2
    proof { assert(ret.0@ + ret.1@ =~= vrfOutputs@); rs_split(vrfOutputs@, ret.0@, ret.1@, nr(vrfOutputs@), depth as int); }
//@end

// ---- adding and removing
// no addition or removal leads into an unknown subtree, or to a parent without an id that nothing changes
pub open spec fn ready(t: T, a: M, r: KS, n: int, d: int) -> bool decreases t
{
    match t {
        T::X(_) => none(a) && knone(r), T::E => true, T::Z => false,
        T::L(k, _) => k.len() == n && forall|j: Seq<u8>| (#[trigger] a(j)).is_some() ==> agree(j, k, d) && (j == k ==> r(k)),
        T::P(l, rr, f) => 0 <= d < 8 * n && (f || !none(a) || !knone(r)) && ready(*l, side(a, d, false), kside(r, d, false), n, d + 1) && ready(*rr, side(a, d, true), kside(r, d, true), n, d + 1),
    }
}
// t stands for m, except that it may still have a parent at the top that m does not need
pub open spec fn start(cs: Suite, t: T, m: M, a: M, r: KS, d: int) -> bool {
    &&& knone(r) || safe(t, m, d)
    &&& fits(cs, t, m, d) || (d < 8 * hsize(cs) && !(none(a) && knone(r)) && match t { T::P(l, rr, _) => !(*l is X) && !(*rr is X) && fits(cs, *l, side(m, d, false), d + 1) && fits(cs, *rr, side(m, d, true), d + 1), _ => false })
}
pub open spec fn collapse(l: T, r: T, f: bool) -> T { if l is L && r is E { l } else if l is E && r is L { r } else if l is E && r is E { T::E } else { T::P(Box::new(l), Box::new(r), f) } }
pub open spec fn plain(t: T, u: T, a: M, r: KS) -> bool { u is X ==> none(a) && knone(r) && (t is X || t is P) }
pub proof fn multi_side(m: M, d: int, b: bool) requires multi(side(m, d, b)) ensures multi(m)
{ let s = side(m, d, b); let (j, k) = choose|j: Seq<u8>, k: Seq<u8>| j != k && (#[trigger] s(j)).is_some() && (#[trigger] s(k)).is_some(); assert(m(j).is_some() && m(k).is_some()); }
pub proof fn half(cs: Suite, t: T, u: T, top: bool, m: M, a: M, r: KS, d: int, b: bool)
    requires knone(r) ==> (multi(m) || !(t is X)), !knone(r) ==> safe(t, side(m, d, b), d + 1), fits(cs, t, side(m, d, b), d + 1), fits(cs, u, side(upd(m, a, r), d, b), d + 1), plain(t, u, side(a, d, b), kside(r, d, b)), u is P || u is X
    ensures multi(upd(m, a, r))
{
    let m2 = upd(m, a, r);
    if u is P { multi_side(m2, d, b); }
    else {
        assert forall|k: Seq<u8>| side(m, d, b)(k) == #[trigger] side(m2, d, b)(k) by { assert(side(a, d, b)(k).is_none()); assert(!kside(r, d, b)(k)); }
        assert(side(m, d, b) =~= side(m2, d, b));
        if t is P || !knone(r) { assert(multi(side(m, d, b))); multi_side(m2, d, b); }
        else { let (j, k) = choose|j: Seq<u8>, k: Seq<u8>| j != k && (#[trigger] m(j)).is_some() && (#[trigger] m(k)).is_some(); assert(m2(j).is_some() && m2(k).is_some()); }
    }
}
pub proof fn parent_step(cs: Suite, l0: T, r0: T, l1: T, r1: T, f: bool, g: bool, m: M, a: M, r: KS, d: int)
    requires start(cs, T::P(Box::new(l0), Box::new(r0), f), m, a, r, d),
        fits(cs, l1, upd(side(m, d, false), side(a, d, false), kside(r, d, false)), d + 1), fits(cs, r1, upd(side(m, d, true), side(a, d, true), kside(r, d, true)), d + 1),
        plain(l0, l1, side(a, d, false), kside(r, d, false)), plain(r0, r1, side(a, d, true), kside(r, d, true))
    ensures fits(cs, collapse(l1, r1, g), upd(m, a, r), d)
{
    let m2 = upd(m, a, r); upd_side(m, a, r, d, false); upd_side(m, a, r, d, true);
    let s0 = side(m2, d, false); let s1 = side(m2, d, true);
    assert forall|k: Seq<u8>| (#[trigger] m2(k)) == (if bit(k, d) { s1(k) } else { s0(k) }) by {}
    let t0 = T::P(Box::new(l0), Box::new(r0), f);
    if fits(cs, t0, m, d) { assert(multi(m)); }
    if l1 is P || l1 is X { half(cs, l0, l1, fits(cs, t0, m, d), m, a, r, d, false); }
    else if r1 is P || r1 is X { half(cs, r0, r1, fits(cs, t0, m, d), m, a, r, d, true); }
    else if l1 is L && r1 is L { let j = l1->L_0; let k = r1->L_0; assert(s0(j).is_some()); assert(s1(k).is_some()); assert(m2(j).is_some() && m2(k).is_some() && j != k); assert(multi(m2)); }
    else if l1 is L { let k = l1->L_0; assert(s0(k).is_some()); assert(only(m2, k, l1->L_1)); }
    else if r1 is L { let k = r1->L_0; assert(s1(k).is_some()); assert(only(m2, k, r1->L_1)); }
    else { assert(none(m2)); }
}
pub open spec fn rank(n: Node) -> int { match n { Node::Leaf(_) => 2, Node::Empty(_) => 1, _ => 0 } }
pub open spec fn no_map() -> M { |k: Seq<u8>| None::<Seq<u8>> }
// two keys of a list differ within their bits
pub proof fn room(s: Seq<px_Entry>, n: int, d: int) requires alist(s, n, d), s.len() > 1, d <= 8 * n ensures d < 8 * n
{ if d == 8 * n { agree_all(s[0].VrfOutput@, s[1].VrfOutput@, n); assert(cmp(s[0].VrfOutput@, s[1].VrfOutput@) < 0); cmp_vals(s[0].VrfOutput@, s[1].VrfOutput@); } }

pub proof fn step_empty(cs: Suite, m: M, a: M, r: KS, r2: KS, d: int) requires start(cs, T::E, m, a, r, d), knone(r2), 0 <= d < 8 * hsize(cs), !none(a)
    ensures start(cs, T::P(Box::new(T::E), Box::new(T::E), false), m, a, r2, d), upd(m, a, r) == upd(m, a, r2)
{ reveal_with_fuel(fits, 3); assert(upd(m, a, r) =~= upd(m, a, r2)); assert(none(side(m, d, false))); assert(none(side(m, d, true))); }
pub proof fn step_gone(cs: Suite, k: Seq<u8>, c: Seq<u8>, m: M, a: M, r: KS, r2: KS, d: int) requires start(cs, T::L(k, c), m, a, r, d), r(k), knone(r2)
    ensures start(cs, T::E, no_map(), a, r2, d), upd(m, a, r) == upd(no_map(), a, r2)
{ assert(only(m, k, c)); assert(upd(m, a, r) =~= upd(no_map(), a, r2)); }
pub open spec fn split1(k: Seq<u8>, c: Seq<u8>, d: int) -> T { if bit(k, d) { T::P(Box::new(T::E), Box::new(T::L(k, c)), false) } else { T::P(Box::new(T::L(k, c)), Box::new(T::E), false) } }
pub proof fn step_keep(cs: Suite, k: Seq<u8>, c: Seq<u8>, m: M, a: M, r: KS, r2: KS, d: int) requires start(cs, T::L(k, c), m, a, r, d), !r(k), knone(r2), 0 <= d < 8 * hsize(cs), !none(a)
    ensures start(cs, split1(k, c, d), m, a, r2, d), upd(m, a, r) == upd(m, a, r2)
{
    reveal_with_fuel(fits, 3); assert(only(m, k, c)); assert(upd(m, a, r) =~= upd(m, a, r2));
    assert(only(side(m, d, bit(k, d)), k, c)); assert(none(side(m, d, !bit(k, d))));
}
pub proof fn ready_keep(k: Seq<u8>, c: Seq<u8>, a: M, r: KS, r2: KS, n: int, d: int) requires ready(T::L(k, c), a, r, n, d), !r(k), knone(r2), 0 <= d < 8 * n, !none(a) ensures ready(split1(k, c, d), a, r2, n, d)
{
    reveal_with_fuel(ready, 3); let s = side(a, d, bit(k, d));
    assert forall|j: Seq<u8>| (#[trigger] s(j)).is_some() implies agree(j, k, d + 1) && (j == k ==> kside(r2, d, bit(k, d))(k)) by { assert(a(j).is_some()); }
}
pub proof fn step_sides(cs: Suite, l: T, rr: T, f: bool, m: M, a: M, r: KS, d: int) requires start(cs, T::P(Box::new(l), Box::new(rr), f), m, a, r, d)
    ensures start(cs, l, side(m, d, false), side(a, d, false), kside(r, d, false), d + 1), start(cs, rr, side(m, d, true), side(a, d, true), kside(r, d, true), d + 1)
{ reveal_with_fuel(fits, 2); reveal_with_fuel(safe, 2); if knone(r) { assert(knone(kside(r, d, false))); assert(knone(kside(r, d, true))); } }
pub proof fn step_add(cs: Suite, s: Seq<px_Entry>, m: M, a: M, r: KS, d: int) requires alist(s, hsize(cs), d), s.len() == 1, a == am(s), start(cs, T::E, m, a, r, d)
    ensures fits(cs, T::L(s[0].VrfOutput@, s[0].Commitment@), upd(m, a, r), d)
{
    am_of(s, hsize(cs), d, 0); let k = s[0].VrfOutput@;
    assert forall|j: Seq<u8>| j != k implies (#[trigger] a(j)).is_none() by { assert forall|i: int| !am_at(s, j, i) by {} }
    assert(none(m)); assert(only(upd(m, a, r), k, s[0].Commitment@));
}
pub proof fn some_add(s: Seq<px_Entry>, n: int, d: int) requires alist(s, n, d), s.len() > 0 ensures !none(am(s)) { am_of(s, n, d, 0); }
// a leaf that stays where entries are added has room below it
pub proof fn room1(s: Seq<px_Entry>, k: Seq<u8>, r: KS, n: int, d: int) requires alist(s, n, d), s.len() > 0, k.len() == n, !r(k), d <= 8 * n, forall|j: Seq<u8>| (#[trigger] am(s)(j)).is_some() ==> agree(j, k, d) && (j == k ==> r(k)) ensures d < 8 * n
{ am_of(s, n, d, 0); let j = s[0].VrfOutput@; assert(am(s)(j).is_some()); if d == 8 * n { agree_all(j, k, n); } }

//@go tree/prefix.addRemoveEntries
pub fn px_addRemoveEntries(cs: Suite, n_r: &mut Node, add: Slice<px_Entry>, remove: Slice<Slice<u8>>, depth: i64)
    requires 0 <= depth <= 8 * hsize(cs), sound(cs, *old(n_r)), alist(add@, hsize(cs), depth as int), rlist(remove@, hsize(cs), depth as int), ready(tv(*old(n_r)), am(add@), rs(remove@), hsize(cs), depth as int)
    ensures sound(cs, *final(n_r)), plain(tv(*old(n_r)), tv(*final(n_r)), am(add@), rs(remove@)),
        forall|m: M| #[trigger] start(cs, tv(*old(n_r)), m, am(add@), rs(remove@), depth as int) ==> fits(cs, tv(*final(n_r)), upd(m, am(add@), rs(remove@)), depth as int)
    decreases 8 * hsize(cs) - depth, rank(*old(n_r))
//@hint entry
    let ghost n0 = n; let ghost mut l1 = T::E; let ghost mut r1 = T::E; let ghost a = am(add@); let ghost r = rs(remove@); let ghost d = depth as int;
    proof { reveal_with_fuel(tv, 2); reveal_with_fuel(sound, 2); reveal_with_fuel(ready, 2); reveal_with_fuel(fits, 2); reveal_with_fuel(safe, 2);
        if add@.len() == 0 { am_empty(add@, d, false); } else { am_of(add@, hsize(cs), d, 0); }
        if remove@.len() == 0 { rs_empty(remove@, d, false); } else { assert(rs_at(remove@, remove@[0]@, 0)); assert(r(remove@[0]@)); } }
//@loop 1
    invariant_except_break !shouldRemove, forall|i: int| 0 <= i < IDX ==> !rs_at(remove@, m.vrfOutput@, i),
    invariant SEQ == remove,
    ensures shouldRemove == r(m.vrfOutput@),
    decreases SEQ@.len() - IDX
//@attr #[verifier::allow_complex_invariants]
//@hint break 1
    assert(rs_at(remove@, m.vrfOutput@, IDX1 - 1));
//@hint before call px_addRemoveEntries 1
    let ghost e = Seq::<Slice<u8>>::empty();
    proof { rs_empty(e, d, false); room(add@, hsize(cs), d); some_add(add@, hsize(cs), d); reveal_with_fuel(ready, 3); reveal_with_fuel(tv, 3); reveal_with_fuel(sound, 3);
        assert forall|m: M| #[trigger] start(cs, tv(n0), m, a, r, d) implies start(cs, tv(n), m, a, rs(e), d) && upd(m, a, r) == upd(m, a, rs(e)) by { step_empty(cs, m, a, r, rs(e), d); } }
//@hint before call px_addRemoveEntries 2
    let ghost e = Seq::<Slice<u8>>::empty();
    proof { rs_empty(e, d, false);
        assert forall|mm: M| #[trigger] start(cs, tv(n0), mm, a, r, d) implies start(cs, tv(n), no_map(), a, rs(e), d) && upd(mm, a, r) == upd(no_map(), a, rs(e)) by { step_gone(cs, m.vrfOutput@, m.commitment@, mm, a, r, rs(e), d); } }
//@hint before call px_getBit 1
    proof { room1(add@, m.vrfOutput@, r, hsize(cs), d); some_add(add@, hsize(cs), d); }
//@hint before call px_addRemoveEntries 3
    let ghost e = Seq::<Slice<u8>>::empty();
    proof { rs_empty(e, d, false); reveal_with_fuel(tv, 3); reveal_with_fuel(sound, 3); assert(tv(n) == split1(m.vrfOutput@, m.commitment@, d)); ready_keep(m.vrfOutput@, m.commitment@, a, r, rs(e), hsize(cs), d);
        assert forall|mm: M| #[trigger] start(cs, tv(n0), mm, a, r, d) implies start(cs, tv(n), mm, a, rs(e), d) && upd(mm, a, r) == upd(mm, a, rs(e)) by { step_keep(cs, m.vrfOutput@, m.commitment@, mm, a, r, rs(e), d); } }
//@hint before call px_splitEntries 1
    let ghost l0 = tv(m.left); let ghost r0 = tv(m.right); let ghost f = n0->Parent_0.id.is_some();
    proof { assert(tv(n0) == T::P(Box::new(l0), Box::new(r0), f)); if add@.len() > 0 { assert(nk(add@) == hsize(cs)); } if remove@.len() > 0 { assert(nr(remove@) == hsize(cs)); } }
//@hint before call px_addRemoveEntries 4
    let ghost la = leftAdd@; let ghost lr = leftRemove@;
    proof { if add@.len() == 0 { assert(alist(la, hsize(cs), d + 1)); } if remove@.len() == 0 { assert(rlist(lr, hsize(cs), d + 1)); } }
//@hint after call px_addRemoveEntries 1
    proof { assert forall|mm: M| #[trigger] start(cs, tv(n0), mm, a, r, d) implies fits(cs, tv(n), upd(mm, a, r), d) by {} }
//@hint after call px_addRemoveEntries 2
    proof { assert forall|mm: M| #[trigger] start(cs, tv(n0), mm, a, r, d) implies fits(cs, tv(n), upd(mm, a, r), d) by {} }
//@hint after call px_addRemoveEntries 3
    proof { assert forall|mm: M| #[trigger] start(cs, tv(n0), mm, a, r, d) implies fits(cs, tv(n), upd(mm, a, r), d) by {} }
//@hint after call px_addRemoveEntries 5
    proof { l1 = tv(m.left); r1 = tv(m.right); reveal_with_fuel(tv, 3); reveal_with_fuel(sound, 3); }
//@hint return 1
    proof {
        let u = tv(n);
        assert forall|m: M| #[trigger] start(cs, tv(n0), m, a, r, d) implies fits(cs, u, upd(m, a, r), d) by { assert(upd(m, a, r) =~= m); fits_hash(cs, tv(n0), m, d); }
    }
//@hint return 2
    proof {
        let u = tv(n); let none_r = rs(Seq::<Slice<u8>>::empty());
        assert forall|m: M| #[trigger] start(cs, tv(n0), m, a, r, d) implies fits(cs, u, upd(m, a, r), d) by {
            match n0 {
                Node::Empty(_) => { if add@.len() == 1 { step_add(cs, add@, m, a, r, d); } else if add@.len() == 0 { assert(none(upd(m, a, r))); } },
                Node::Leaf(q) => { if add@.len() == 0 { let m2 = upd(m, a, r); assert(only(m, q.vrfOutput@, q.commitment@)); if r(q.vrfOutput@) { assert(none(m2)); } else { assert(only(m2, q.vrfOutput@, q.commitment@)); } } },
                Node::Parent(p) => { let l0 = tv(p.left); let r0 = tv(p.right); let f = p.id.is_some(); step_sides(cs, l0, r0, f, m, a, r, d); parent_step(cs, l0, r0, l1, r1, f, false, m, a, r, d); assert(u == collapse(l1, r1, false)); },
                _ => {},
            }
        }
    }
//@end

// ---- evaluating a proof before and after a mutation
pub open spec fn adds(add: Seq<px_Entry>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < add.len() && (#[trigger] add[i]).VrfOutput@ == k }
// a searched key is found, or is shown to be absent
pub open spec fn known(t: T, ks: KS, a: M, r: KS, d: int) -> bool {
    &&& forall|k: Seq<u8>| (#[trigger] a(k)).is_some() ==> ks(k) && (at(t, k, d) is L && at(t, k, d)->L_0 == k ==> r(k))
    &&& forall|k: Seq<u8>| #[trigger] r(k) ==> ks(k)
    &&& forall|k: Seq<u8>| #[trigger] ks(k) ==> (a(k).is_some() || r(k)) && !(at(t, k, d) is X)
}
// a partial tree that a proof shows is ready for what the proof covers
pub proof fn shown_ready(t: T, ks: KS, a: M, r: KS, n: int, d: int)
    requires skel(t, d), 0 <= d, n >= 32, sized(n, t, false), placed(t, d), covered(t, ks, d), known(t, ks, a, r, d), forall|k: Seq<u8>| #[trigger] ks(k) ==> near(t, k, d) && k.len() == n
    ensures ready(t, a, r, n, d)
    decreases t
{
    match t {
        T::P(l, rr, f) => {
            let k = choose|k: Seq<u8>| #[trigger] ks(k); assert(ks(k)); assert(a(k).is_some() || r(k));
            assert forall|k: Seq<u8>| #[trigger] ks(k) implies (bit(k, d) ==> near(*rr, k, d + 1)) && (!bit(k, d) ==> near(*l, k, d + 1)) by { near_side(*l, *rr, f, k, d); }
            ready_side(*l, *rr, f, ks, a, r, d, false); ready_side(*l, *rr, f, ks, a, r, d, true);
            shown_ready(*l, kside(ks, d, false), side(a, d, false), kside(r, d, false), n, d + 1);
            shown_ready(*rr, kside(ks, d, true), side(a, d, true), kside(r, d, true), n, d + 1);
        }
        T::L(k, c) => {
            assert forall|j: Seq<u8>| (#[trigger] a(j)).is_some() implies agree(j, k, d) && (j == k ==> r(k)) by { assert(ks(j)); near_leaf(k, c, j, d); }
        }
        T::X(_) => { assert forall|k: Seq<u8>| (#[trigger] a(k)).is_none() by { if a(k).is_some() { assert(ks(k)); } } assert forall|k: Seq<u8>| !(#[trigger] r(k)) by { if r(k) { assert(ks(k)); } } }
        _ => {}
    }
}
pub proof fn sized_weak(n: int, t: T) requires sized(n, t, true) ensures sized(n, t, false) decreases t { match t { T::P(l, r, _) => { sized_weak(n, *l); sized_weak(n, *r); } _ => {} } }
pub proof fn ready_side(l: T, rr: T, f: bool, ks: KS, a: M, r: KS, d: int, b: bool) requires known(T::P(Box::new(l), Box::new(rr), f), ks, a, r, d)
    ensures known(if b { rr } else { l }, kside(ks, d, b), side(a, d, b), kside(r, d, b), d + 1)
{
    let t = T::P(Box::new(l), Box::new(rr), f); let u = if b { rr } else { l }; let k2 = kside(ks, d, b); let a2 = side(a, d, b); let r2 = kside(r, d, b);
    assert forall|k: Seq<u8>| bit(k, d) == b implies #[trigger] at(u, k, d + 1) == at(t, k, d) by {}
    assert forall|k: Seq<u8>| (#[trigger] a2(k)).is_some() implies k2(k) && (at(u, k, d + 1) is L && at(u, k, d + 1)->L_0 == k ==> r2(k)) by { assert(a(k).is_some()); assert(at(u, k, d + 1) == at(t, k, d)); }
    assert forall|k: Seq<u8>| #[trigger] r2(k) implies k2(k) by { assert(r(k)); }
    assert forall|k: Seq<u8>| #[trigger] k2(k) implies (a2(k).is_some() || r2(k)) && !(at(u, k, d + 1) is X) by { assert(ks(k)); assert(at(u, k, d + 1) == at(t, k, d)); }
}
// sorting does not change what a list says
pub proof fn am_perm(s: Seq<px_Entry>, s2: Seq<px_Entry>, n: int) requires alist(s2, n, 0), forall|x: px_Entry| #[trigger] s2.contains(x) <==> s.contains(x) ensures am(s) == am(s2)
{
    assert forall|k: Seq<u8>| am(s)(k) == #[trigger] am(s2)(k) by {
        if exists|i: int| am_at(s, k, i) {
            let i = choose|i: int| am_at(s, k, i); assert(s.contains(s[i])); assert(s2.contains(s[i])); let j = choose|j: int| 0 <= j < s2.len() && s2[j] == s[i]; am_of(s2, n, 0, j);
        } else {
            assert forall|i: int| !am_at(s2, k, i) by { if am_at(s2, k, i) { assert(s2.contains(s2[i])); assert(s.contains(s2[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == s2[i]; assert(am_at(s, k, j)); } }
        }
    }
    assert(am(s) =~= am(s2));
}
pub proof fn am_some(s: Seq<px_Entry>, k: Seq<u8>) ensures am(s)(k).is_some() <==> keyset(s)(k)
{ if keyset(s)(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).VrfOutput@ == k; assert(am_at(s, k, i)); } if am(s)(k).is_some() { let i = choose|i: int| am_at(s, k, i); assert(s[i].VrfOutput@ == k); } }
pub proof fn strict(s: Seq<px_Entry>, n: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).VrfOutput@.len() == n, forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp((#[trigger] s[i]).VrfOutput@, (#[trigger] s[j]).VrfOutput@) <= 0,
        forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i]).VrfOutput@ != s[i - 1].VrfOutput@
    ensures alist(s, n, 0)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies cmp((#[trigger] s[i]).VrfOutput@, (#[trigger] s[j]).VrfOutput@) < 0 by {
        let a = s[i].VrfOutput@; let b = s[j].VrfOutput@; cmp_vals(a, b);
        if cmp(a, b) == 0 { let c = s[i + 1].VrfOutput@; assert(s[i + 1].VrfOutput@ != s[i + 1 - 1].VrfOutput@); cmp_vals(a, c); cmp_vals(c, a); if j > i + 1 { assert(cmp(s[i + 1].VrfOutput@, s[j].VrfOutput@) <= 0); } }
    }
}
// C07: what accepting a proof for a mutation establishes
pub open spec fn mutates(cs: Suite, t: T, u: T, a: M, r: KS) -> bool { forall|m: M| #[trigger] start(cs, t, m, a, r, 0) ==> fits(cs, u, upd(m, a, r), 0) }
pub open spec fn turns(cs: Suite, add: Seq<px_Entry>, remove: Seq<px_Entry>, p: px_PrefixProof, before: Seq<u8>, after: Seq<u8>) -> bool {
    exists|t: T, u: T| #![trigger mutates(cs, t, u, am(add), keyset(remove))] mutates(cs, t, u, am(add), keyset(remove)) && sized(hsize(cs), t, true) && hashed(cs, t) && before == th(cs, t) && after == th(cs, u) && hv(p.Elements@) == xs(t)
        && known(t, keyset(add + remove), am(add), keyset(remove), 0) && (forall|j: int| 0 <= j < remove.len() ==> shown(#[trigger] remove[j], p.Results@[add.len() + j], t, 0))
}
// all: the added entries (up to k) that are not also removed, with their results
pub open spec fn from_add(all: Seq<px_Entry>, ress: Seq<PSR>, add: Seq<px_Entry>, res0: Seq<PSR>, q: int, k: int) -> bool { exists|i: int| 0 <= i < k && i < add.len() && i < res0.len() && all[q] == #[trigger] add[i] && ress[q] == res0[i] && !psr_incl(ress[q]) }
pub open spec fn placed_add(all: Seq<px_Entry>, add: Seq<px_Entry>, rem: Seq<px_Entry>, i: int) -> bool { keyset(rem)(add[i].VrfOutput@) || exists|q: int| 0 <= q < all.len() && #[trigger] all[q] == add[i] }
pub open spec fn apart(es: Seq<px_Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).VrfOutput@ != (#[trigger] es[j]).VrfOutput@ }
#[verifier::opaque]
pub open spec fn combined(all: Seq<px_Entry>, ress: Seq<PSR>, add: Seq<px_Entry>, rem: Seq<px_Entry>, res0: Seq<PSR>, k: int) -> bool {
    &&& all.len() == ress.len() && 0 <= k <= add.len() && res0.len() == add.len() + rem.len() && all.len() <= k
    &&& forall|q: int| 0 <= q < all.len() ==> #[trigger] from_add(all, ress, add, res0, q, k)
    &&& forall|q: int| 0 <= q < all.len() ==> !keyset(rem)((#[trigger] all[q]).VrfOutput@)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] placed_add(all, add, rem, i)
    &&& apart(add) ==> apart(all)
}
pub proof fn combined_none(add: Seq<px_Entry>, rem: Seq<px_Entry>, res0: Seq<PSR>) requires res0.len() == add.len() + rem.len() ensures combined(Seq::empty(), Seq::empty(), add, rem, res0, 0) { reveal(combined); }
pub proof fn combined_len(all: Seq<px_Entry>, ress: Seq<PSR>, add: Seq<px_Entry>, rem: Seq<px_Entry>, res0: Seq<PSR>, k: int) requires combined(all, ress, add, rem, res0, k) ensures all.len() == ress.len(), all.len() <= k <= add.len() { reveal(combined); }
pub proof fn combined_skip(all: Seq<px_Entry>, ress: Seq<PSR>, add: Seq<px_Entry>, rem: Seq<px_Entry>, res0: Seq<PSR>, k: int)
    requires combined(all, ress, add, rem, res0, k), k < add.len(), keyset(rem)(add[k].VrfOutput@) ensures combined(all, ress, add, rem, res0, k + 1)
{
    reveal(combined);
    assert forall|q: int| 0 <= q < all.len() implies #[trigger] from_add(all, ress, add, res0, q, k + 1) by { assert(from_add(all, ress, add, res0, q, k)); }
}
pub proof fn combined_push(all: Seq<px_Entry>, ress: Seq<PSR>, add: Seq<px_Entry>, rem: Seq<px_Entry>, res0: Seq<PSR>, k: int)
    requires combined(all, ress, add, rem, res0, k), k < add.len(), !keyset(rem)(add[k].VrfOutput@), !psr_incl(res0[k]) ensures combined(all.push(add[k]), ress.push(res0[k]), add, rem, res0, k + 1)
{
    reveal(combined);
    let all2 = all.push(add[k]); let ress2 = ress.push(res0[k]);
    assert forall|q: int| 0 <= q < all2.len() implies #[trigger] from_add(all2, ress2, add, res0, q, k + 1) by { if q < all.len() { assert(from_add(all, ress, add, res0, q, k)); let i = choose|i: int| 0 <= i < k && i < add.len() && i < res0.len() && all[q] == #[trigger] add[i] && ress[q] == res0[i] && !psr_incl(ress[q]); assert(all2[q] == add[i]); } else { assert(all2[q] == add[k]); } }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] placed_add(all2, add, rem, i) by { if i < k { assert(placed_add(all, add, rem, i)); if !keyset(rem)(add[i].VrfOutput@) { let q = choose|q: int| 0 <= q < all.len() && #[trigger] all[q] == add[i]; assert(all2[q] == add[i]); } } else { assert(all2[all.len() as int] == add[k]); } }
    if apart(add) { assert forall|i: int, j: int| 0 <= i < j < all2.len() implies (#[trigger] all2[i]).VrfOutput@ != (#[trigger] all2[j]).VrfOutput@ by {
        assert(all2[i] == all[i]);
        if j < all.len() { assert(all[i].VrfOutput@ != all[j].VrfOutput@); } else { assert(from_add(all, ress, add, res0, i, k)); let x = choose|x: int| 0 <= x < k && x < add.len() && x < res0.len() && all[i] == #[trigger] add[x] && ress[i] == res0[x] && !psr_incl(ress[i]); assert(add[x].VrfOutput@ != add[k].VrfOutput@); } } }
}
pub proof fn combined_ok(n: int, all: Seq<px_Entry>, ress: Seq<PSR>, add: Seq<px_Entry>, rem: Seq<px_Entry>, res0: Seq<PSR>, k: int)
    requires combined(all, ress, add, rem, res0, k), forall|i: int| 0 <= i < res0.len() ==> psr_ok(n, #[trigger] res0[i]) ensures forall|q: int| 0 <= q < ress.len() ==> psr_ok(n, #[trigger] ress[q])
{
    reveal(combined);
    assert forall|q: int| 0 <= q < ress.len() implies psr_ok(n, #[trigger] ress[q]) by { assert(from_add(all, ress, add, res0, q, k)); }
}
// the proof of a mutation of t: every result the true one, everything removed
// in the tree, and everything added not (but for what is removed)
#[verifier::opaque]
pub open spec fn goes(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, p: px_PrefixProof, t: T) -> bool {
    &&& p.Results@.len() == add.len() + rem.len() && hv(p.Elements@) == copath(cs, t, keyset(add + rem), 0) && placed(t, 0)
    &&& forall|i: int| 0 <= i < add.len() ==> (#[trigger] add[i]).VrfOutput@.len() == hsize(cs) && add[i].Commitment@.len() == hsize(cs) && answer(t, add[i].VrfOutput@, 0, p.Results@[i]) && (psr_incl(p.Results@[i]) ==> keyset(rem)(add[i].VrfOutput@))
    &&& forall|j: int| 0 <= j < rem.len() ==> entry_ok(hsize(cs), #[trigger] rem[j]) && tells(t, rem[j], p.Results@[add.len() + j], 0) && psr_incl(p.Results@[add.len() + j])
    &&& apart(add) && apart(rem)
}
pub proof fn goes_len(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, p: px_PrefixProof, t: T) requires goes(cs, add, rem, p, t) ensures p.Results@.len() == add.len() + rem.len(), apart(add) { reveal(goes); }
pub proof fn goes_com(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, p: px_PrefixProof, t: T, i: int) requires goes(cs, add, rem, p, t), 0 <= i < add.len() ensures add[i].Commitment@.len() == hsize(cs), psr_incl(p.Results@[i]) ==> keyset(rem)(add[i].VrfOutput@) { reveal(goes); }
pub proof fn goes_pair(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, p: px_PrefixProof, t: T, i: int, j: int)
    requires goes(cs, add, rem, p, t), 0 <= i < add.len(), 0 <= j < rem.len(), add[i].VrfOutput@ == rem[j].VrfOutput@
    ensures psr_incl(p.Results@[i]), psr_incl(p.Results@[add.len() + j]), psr_depth(p.Results@[i]) == psr_depth(p.Results@[add.len() + j])
{ reveal(goes); let k = add[i].VrfOutput@; assert(answer(t, k, 0, p.Results@[i])); assert(tells(t, rem[j], p.Results@[add.len() + j], 0)); }
pub proof fn goes_proves(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, p: px_PrefixProof, t: T, part: Seq<px_Entry>, pr: Seq<PSR>, p2: px_PrefixProof)
    requires goes(cs, add, rem, p, t), combined(part, pr, add, rem, p.Results@, add.len() as int), p2.Results@ == pr + p.Results@.skip(add.len() as int), p2.Elements == p.Elements
    ensures proves(cs, part + rem, p2, t)
{
    reveal(goes); reveal(combined); let all = part + rem; let res0 = p.Results@;
    same_keys(add, rem, part, pr, res0);
    assert forall|q: int| 0 <= q < all.len() implies entry_ok(hsize(cs), #[trigger] all[q]) && tells(t, all[q], p2.Results@[q], 0) by {
        if q < part.len() { assert(from_add(part, pr, add, res0, q, add.len() as int)); let i = choose|i: int| 0 <= i < add.len() && i < add.len() && i < res0.len() && part[q] == #[trigger] add[i] && pr[q] == res0[i] && !psr_incl(pr[q]); assert(p2.Results@[q] == pr[q]); assert(answer(t, add[i].VrfOutput@, 0, res0[i])); }
        else { let j = q - part.len(); assert(all[q] == rem[j]); assert(p2.Results@[q] == res0[add.len() + j]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).VrfOutput@ != (#[trigger] all[j]).VrfOutput@ by {
        if i >= part.len() { assert(rem[i - part.len()].VrfOutput@ != rem[j - part.len()].VrfOutput@); } else { assert(all[i] == part[i]); if j >= part.len() { assert(rem[j - part.len()] == all[j]); assert(keyset(rem)(all[j].VrfOutput@)); } else { assert(part[i].VrfOutput@ != part[j].VrfOutput@); } }
    }
}
pub proof fn same_keys(add: Seq<px_Entry>, rem: Seq<px_Entry>, part: Seq<px_Entry>, pr: Seq<PSR>, res0: Seq<PSR>)
    requires combined(part, pr, add, rem, res0, add.len() as int)
    ensures keyset(part + rem) == keyset(add + rem)
{
    reveal(combined); let all = part + rem; let ar = add + rem;
    assert forall|k: Seq<u8>| keyset(all)(k) == #[trigger] keyset(ar)(k) by {
        if keyset(all)(k) { let q = choose|q: int| 0 <= q < all.len() && (#[trigger] all[q]).VrfOutput@ == k; if q < part.len() { assert(from_add(part, pr, add, res0, q, add.len() as int)); let i = choose|i: int| 0 <= i < add.len() && i < add.len() && i < res0.len() && part[q] == #[trigger] add[i] && pr[q] == res0[i] && !psr_incl(pr[q]); assert(ar[i] == add[i]); } else { assert(ar[q - part.len() + add.len()] == all[q]); } }
        if keyset(ar)(k) { let i = choose|i: int| 0 <= i < ar.len() && (#[trigger] ar[i]).VrfOutput@ == k; 
            if i < add.len() { assert(placed_add(part, add, rem, i)); if keyset(rem)(k) { let j = choose|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).VrfOutput@ == k; assert(all[part.len() + j] == rem[j]); } else { let q = choose|q: int| 0 <= q < part.len() && #[trigger] part[q] == add[i]; assert(all[q] == part[q]); } }
            else { assert(all[i - add.len() + part.len()] == ar[i]); } }
    }
    assert(keyset(all) =~= keyset(ar));
}
pub proof fn perm_apart(a: Seq<px_Entry>, b: Seq<px_Entry>, p: Seq<int>) requires perm(p, a.len() as int), permuted(a, b, p), a.len() == b.len(), apart(a) ensures apart(b)
{ assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).VrfOutput@ != (#[trigger] b[j]).VrfOutput@ by { assert(p[i] != p[j]); assert(b[i] == a[p[i]] && b[j] == a[p[j]]); if p[i] < p[j] { assert(a[p[i]].VrfOutput@ != a[p[j]].VrfOutput@); } else { assert(a[p[j]].VrfOutput@ != a[p[i]].VrfOutput@); } } }
pub proof fn cover(cs: Suite, add: Seq<px_Entry>, rem: Seq<px_Entry>, part: Seq<px_Entry>, pr: Seq<PSR>, res0: Seq<PSR>, p2: px_PrefixProof, t: T)
    requires shows(cs, part + rem, p2, t), p2.Results@ == pr + res0.skip(add.len() as int), combined(part, pr, add, rem, res0, add.len() as int)
    ensures keyset(part + rem) == keyset(add + rem), known(t, keyset(add + rem), am(add), keyset(rem), 0),
        forall|i: int| 0 <= i < add.len() ==> (#[trigger] add[i]).VrfOutput@.len() == hsize(cs), forall|i: int| 0 <= i < rem.len() ==> (#[trigger] rem[i]).VrfOutput@.len() == hsize(cs),
        forall|j: int| 0 <= j < rem.len() ==> shown(#[trigger] rem[j], res0[add.len() + j], t, 0), forall|k: Seq<u8>| #[trigger] keyset(add + rem)(k) ==> k.len() == hsize(cs), covered(t, keyset(add + rem), 0)
{
    let all = part + rem; let ar = add + rem; same_keys(add, rem, part, pr, res0); reveal(combined);
    assert forall|j: int| 0 <= j < rem.len() implies (#[trigger] rem[j]).VrfOutput@.len() == hsize(cs) && shown(rem[j], res0[add.len() + j], t, 0) by { assert(all[part.len() + j] == rem[j]); assert(p2.Results@[part.len() + j] == res0[add.len() + j]); }
    assert forall|i: int| 0 <= i < add.len() implies (#[trigger] add[i]).VrfOutput@.len() == hsize(cs) by {
        let k = add[i].VrfOutput@; assert(ar[i] == add[i]); assert(keyset(ar)(k)); assert(keyset(all)(k)); let q = choose|q: int| 0 <= q < all.len() && (#[trigger] all[q]).VrfOutput@ == k;
    }
    let a = am(add); let r = keyset(rem); let ks = keyset(ar);
    assert forall|k: Seq<u8>| (#[trigger] a(k)).is_some() implies ks(k) && (at(t, k, 0) is L && at(t, k, 0)->L_0 == k ==> r(k)) by {
        am_some(add, k); let i = choose|i: int| 0 <= i < add.len() && (#[trigger] add[i]).VrfOutput@ == k; assert(ar[i] == add[i]);
        if !r(k) { assert(placed_add(part, add, rem, i)); let q = choose|q: int| 0 <= q < part.len() && #[trigger] part[q] == add[i]; assert(all[q] == part[q]); assert(from_add(part, pr, add, res0, q, add.len() as int)); assert(p2.Results@[q] == pr[q]); assert(shown(all[q], p2.Results@[q], t, 0)); }
    }
    assert forall|k: Seq<u8>| #[trigger] r(k) implies ks(k) by { let j = choose|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).VrfOutput@ == k; assert(ar[add.len() + j] == rem[j]); }
    assert forall|k: Seq<u8>| #[trigger] ks(k) implies (a(k).is_some() || r(k)) && !(at(t, k, 0) is X) && k.len() == hsize(cs) by {
        let i = choose|i: int| 0 <= i < ar.len() && (#[trigger] ar[i]).VrfOutput@ == k; am_some(add, k); if i < add.len() { assert(add[i] == ar[i]); } else { assert(rem[i - add.len()] == ar[i]); }
        assert(keyset(all)(k)); let q = choose|q: int| 0 <= q < all.len() && (#[trigger] all[q]).VrfOutput@ == k; assert(shown(all[q], p2.Results@[q], t, 0));
    }
}
pub proof fn shows_skel(cs: Suite, es: Seq<px_Entry>, p: px_PrefixProof, t: T) requires shows(cs, es, p, t) ensures skel(t, 0), sized(hsize(cs), t, true), no_nil(t), placed(t, 0) {}
pub proof fn rs_perm(s: Seq<Slice<u8>>, s2: Seq<Slice<u8>>, rem: Seq<px_Entry>, n: int)
    requires s.len() == rem.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == rem[i].VrfOutput, forall|x: Slice<u8>| #[trigger] s2.contains(x) <==> s.contains(x), forall|i: int| 0 <= i < rem.len() ==> (#[trigger] rem[i]).VrfOutput@.len() == n,
        forall|i: int, j: int| 0 <= i < j < s2.len() ==> cmp((#[trigger] s2[i])@, (#[trigger] s2[j])@) <= 0
    ensures rs(s2) == keyset(rem), rlist(s2, n, 0)
{
    assert forall|i: int| 0 <= i < s2.len() implies (#[trigger] s2[i])@.len() == n by { assert(s2.contains(s2[i])); assert(s.contains(s2[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == s2[i]; assert(rem[j].VrfOutput@.len() == n); }
    assert forall|k: Seq<u8>| rs(s2)(k) == #[trigger] keyset(rem)(k) by {
        if rs(s2)(k) { let i = choose|i: int| rs_at(s2, k, i); assert(s2.contains(s2[i])); assert(s.contains(s2[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == s2[i]; assert(rem[j].VrfOutput@ == k); }
        if keyset(rem)(k) { let j = choose|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).VrfOutput@ == k; assert(s[j] == rem[j].VrfOutput); assert(s.contains(s[j])); assert(s2.contains(s[j])); let i = choose|i: int| 0 <= i < s2.len() && s2[i] == s[j]; assert(rs_at(s2, k, i)); }
    }
    assert(rs(s2) =~= keyset(rem));
}
//@ext slices.SortFunc#Compare
pub fn slices_SortFunc_bytes(v: &mut Slice<Slice<u8>>) ensures final(v).nil == old(v).nil, final(v)@.len() == old(v)@.len(), exists|p: Seq<int>| #[trigger] perm(p, old(v)@.len() as int) && permuted(old(v)@, final(v)@, p), forall|x: Slice<u8>| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> cmp((#[trigger] final(v)@[i])@, (#[trigger] final(v)@[j])@) <= 0
//@end
//@go tree/prefix.EvaluateBeforeAfter
//@attr hide shows
//@attr hide known
//@attr hide fits
//@attr hide mutates
//@attr hide covered
//@attr hide keyset
//@attr hide am
//@attr hide proves
//@attr hide turns
pub fn px_EvaluateBeforeAfter(cs: Suite, add: Slice<px_Entry>, remove: Slice<px_Entry>, proof_: px_PrefixProof) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>))
    requires hsize(cs) >= 32, proof_ok(hsize(cs), proof_), add@.len() + remove@.len() <= i64::MAX
    ensures r.2.is_none() ==> add@.len() + remove@.len() == proof_.Results@.len() && turns(cs, add@, remove@, proof_, r.0@, r.1@), forall|t: T| #[trigger] goes(cs, add@, remove@, proof_, t) ==> r.2.is_none() && r.0@ == th(cs, t)
//@hint entry
    let ghost add0 = add@; let ghost rem0 = remove@; let ghost res0 = proof_.Results@; let ghost p0 = proof_; let ghost mut part = Seq::<px_Entry>::empty(); let ghost mut pr = Seq::<PSR>::empty(); let ghost ks = keyset(add0 + rem0); let ghost a = am(add0); let ghost r = keyset(rem0);
    proof { reveal_with_fuel(hashed, 2); }
//@loop 1
    invariant SEQ == add, add@ == add0, remove@ == rem0, proof_ == p0, proof_.Results@ == res0, proof_ok(hsize(cs), proof_), res0.len() == add0.len() + rem0.len(), IDX <= add0.len(), combined(allEntries@, results@, add0, rem0, res0, IDX as int), 
    decreases SEQ@.len() - IDX
//@loop 2
    invariant SEQ == remove, add@ == add0, remove@ == rem0, proof_ == p0, proof_.Results@ == res0, proof_ok(hsize(cs), proof_), res0.len() == add0.len() + rem0.len(), found ==> keyset(rem0)(entry.VrfOutput@), !found ==> forall|j: int| 0 <= j < IDX ==> (#[trigger] rem0[j]).VrfOutput@ != entry.VrfOutput@, psr_ok(hsize(cs), res),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    proof { assert(SEQ@[IDX - 1] == removed); reveal(keyset); }
//@hint loop 1 top
    let ghost all1 = allEntries@; let ghost res1 = results@; proof { assert(add0[IDX - 1] == entry); combined_len(all1, res1, add0, rem0, res0, IDX - 1); }
//@hint loop 1 bottom
    proof { if found { combined_skip(all1, res1, add0, rem0, res0, IDX - 1); } else { combined_push(all1, res1, add0, rem0, res0, IDX - 1); assert(allEntries@ =~= all1.push(add0[IDX - 1])); assert(results@ =~= res1.push(res0[IDX - 1])); } }
//@hint after loop 2
    proof { reveal(keyset); assert(!found ==> !keyset(rem0)(entry.VrfOutput@)); }
//@loop 3
    invariant i >= 1, forall|q: int| 1 <= q < i && q < sortedAdd@.len() ==> (#[trigger] sortedAdd@[q]).VrfOutput@ != sortedAdd@[q - 1].VrfOutput@,
    decreases sortedAdd@.len() - i
//@loop 4
    invariant SEQ == remove, remove@ == rem0, sortedRemove@.len() == rem0.len(), forall|q: int| 0 <= q < IDX ==> #[trigger] sortedRemove@[q] == rem0[q].VrfOutput,
    decreases SEQ@.len() - IDX
//@hint before loop 1
    proof { assert(allEntries@ =~= Seq::empty()); assert(results@ =~= Seq::empty()); combined_none(add0, rem0, res0); }
//@hint after loop 1
    proof { part = allEntries@; pr = results@; combined_len(part, pr, add0, rem0, res0, add0.len() as int); combined_ok(hsize(cs), part, pr, add0, rem0, res0, add0.len() as int); }
//@hint return 1
    proof { assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies false by { goes_len(cs, add0, rem0, p0, t); } }
//@hint return 2
    proof { assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies false by { goes_pair(cs, add0, rem0, p0, t, i as int, j as int); } }
//@hint return 3
    proof { assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies false by { goes_com(cs, add0, rem0, p0, t, i as int); } }
//@hint return 4
    proof { assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies false by { goes_com(cs, add0, rem0, p0, t, i as int); } }
//@hint return 6
    proof { assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies false by { goes_len(cs, add0, rem0, p0, t); let k = i as int; assert(sortedAdd@[k - 1].VrfOutput@ != sortedAdd@[k].VrfOutput@); } }
//@hint before call px_evaluate 1
    proof { assert(allEntries@ =~= part + rem0); assert(results@ =~= pr + res0.skip(add0.len() as int));
        assert forall|q: int| 0 <= q < results@.len() implies psr_ok(hsize(cs), #[trigger] results@[q]) by { if q >= pr.len() { assert(results@[q] == res0[q - pr.len() + add0.len()]); } else { assert(results@[q] == pr[q]); } }
        assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies proves(cs, allEntries@, px_PrefixProof { Results: results, Elements: proof_.Elements }, t) by { goes_proves(cs, add0, rem0, p0, t, part, pr, px_PrefixProof { Results: results, Elements: proof_.Elements }); } }
//@hint after call px_evaluate 1
    let ghost t1 = tv(RES0);
    proof { assert forall|t: T| #[trigger] goes(cs, add0, rem0, p0, t) implies RES1.is_none() && th(cs, t1) == th(cs, t) by { assert(proves(cs, allEntries@, px_PrefixProof { Results: results, Elements: proof_.Elements }, t)); }
        if RES1.is_none() { shows_skel(cs, allEntries@, px_PrefixProof { Results: results, Elements: proof_.Elements }, t1); fresh_sound(cs, RES0, 0); cover(cs, add0, rem0, part, pr, res0, px_PrefixProof { Results: results, Elements: proof_.Elements }, t1); } }
//@hint before call slices_SortFunc_cmpe 1
    proof { assert(sortedAdd@ =~= add0); assert(sound(cs, root) && tv(root) == t1 && before@ == th(cs, t1) && hashed(cs, t1)); }
//@hint after call slices_SortFunc_cmpe 1
    proof { let p = choose|p: Seq<int>| #[trigger] perm(p, add0.len() as int) && permuted(add0, sortedAdd@, p); if apart(add0) { perm_apart(add0, sortedAdd@, p); } }
//@hint before call slices_SortFunc_bytes 1
    let ghost sr0 = sortedRemove@;
//@hint before call px_addRemoveEntries 1
    proof {
        assert forall|i: int| 0 <= i < sortedAdd@.len() implies (#[trigger] sortedAdd@[i]).VrfOutput@.len() == hsize(cs) by { assert(sortedAdd@.contains(sortedAdd@[i])); assert(add0.contains(sortedAdd@[i])); let j = choose|j: int| 0 <= j < add0.len() && add0[j] == sortedAdd@[i]; assert(add0[j].VrfOutput@.len() == hsize(cs)); }
        strict(sortedAdd@, hsize(cs)); am_perm(add0, sortedAdd@, hsize(cs)); rs_perm(sr0, sortedRemove@, rem0, hsize(cs));
        assert forall|k: Seq<u8>| #[trigger] ks(k) implies near(t1, k, 0) by {}
        sized_weak(hsize(cs), t1);
        shown_ready(t1, ks, a, r, hsize(cs), 0);
    }
//@hint return 7
    proof { reveal(mutates); assert(mutates(cs, t1, tv(root), a, r)); reveal(turns); assert(turns(cs, add0, rem0, p0, before@, after@)); }
//@end

// ---- what this means for a real tree
// a partial tree with the root of the tree that holds m stands for m
pub proof fn real_fits(cs: Suite, t: T, m: M, d: int)
    requires th(cs, t) == th(cs, canon(m, 8 * hsize(cs), d)), sized(hsize(cs), t, true), hashed(cs, t), full(cs, canon(m, 8 * hsize(cs), d))
    ensures fits(cs, t, m, d)
    decreases t
{
    let w = 8 * hsize(cs); let u = canon(m, w, d); reveal_with_fuel(canon, 2);
    match t {
        T::E => { match u { T::L(k2, c2) => { axiom_nonzero(cs, lin(k2, c2)); } T::P(l2, r2, _) => { axiom_nonzero(cs, pin(th(cs, *l2), th(cs, *r2))); } _ => {} } }
        T::L(k1, c1) => { match u {
            T::L(k2, c2) => {
                axiom_cr(cs, lin(k1, c1), lin(k2, c2)); let a = lin(k1, c1); let b = lin(k2, c2); assert(k1 =~= a.subrange(1, 1 + hsize(cs))); assert(k2 =~= b.subrange(1, 1 + hsize(cs))); assert(c1 =~= a.skip(1 + hsize(cs))); assert(c2 =~= b.skip(1 + hsize(cs)));
                let k = choose|k: Seq<u8>| (#[trigger] m(k)).is_some(); assert(m(k).is_some()) by { if !none(m) { let q = choose|q: Seq<u8>| !(#[trigger] m(q)).is_none(); assert(m(q).is_some()); } }
                assert(k == k1); assert forall|j: Seq<u8>| j != k1 implies (#[trigger] m(j)).is_none() by { if m(j).is_some() { assert(multi(m)); } } }
            T::P(l2, r2, _) => { axiom_cr(cs, lin(k1, c1), pin(th(cs, *l2), th(cs, *r2))); assert(lin(k1, c1)[0] == 2); assert(pin(th(cs, *l2), th(cs, *r2))[0] == 3); }
            _ => { axiom_nonzero(cs, lin(k1, c1)); }
        } }
        T::P(l1, r1, _) => { let a = pin(th(cs, *l1), th(cs, *r1)); th_len(cs, *l1); th_len(cs, *r1); match u {
            T::L(k2, c2) => { axiom_cr(cs, lin(k2, c2), a); assert(lin(k2, c2)[0] == 2); assert(a[0] == 3); }
            T::P(l2, r2, _) => {
                let b = pin(th(cs, *l2), th(cs, *r2)); axiom_cr(cs, a, b); th_len(cs, *l2); th_len(cs, *r2); let n = hsize(cs);
                assert(th(cs, *l1) =~= a.subrange(1, 1 + n)); assert(th(cs, *l2) =~= b.subrange(1, 1 + n)); assert(th(cs, *r1) =~= a.skip(1 + n)); assert(th(cs, *r2) =~= b.skip(1 + n));
                real_fits(cs, *l1, side(m, d, false), d + 1); real_fits(cs, *r1, side(m, d, true), d + 1);
            }
            _ => { axiom_nonzero(cs, a); }
        } }
        _ => {}
    }
}
// nothing is removed whose parent might then have a single, unknown, leaf
pub open spec fn undisclosed(cs: Suite, p: px_PrefixProof, m: M, root: Seq<u8>) -> bool { forall|t: T| th(cs, t) == root && #[trigger] fits(cs, t, m, 0) && hv(p.Elements@) == xs(t) ==> safe(t, m, 0) }
// C07: a proof accepted for a mutation of the tree that holds m ends in the root of the tree that holds the mutated m
pub proof fn prop_before_after(cs: Suite, add: Seq<px_Entry>, remove: Seq<px_Entry>, p: px_PrefixProof, m: M, after: Seq<u8>)
    requires turns(cs, add, remove, p, th(cs, canon(m, 8 * hsize(cs), 0)), after), full(cs, canon(m, 8 * hsize(cs), 0)), remove.len() == 0 || undisclosed(cs, p, m, th(cs, canon(m, 8 * hsize(cs), 0)))
    ensures after == th(cs, canon(upd(m, am(add), keyset(remove)), 8 * hsize(cs), 0))
{
    let w = 8 * hsize(cs); let a = am(add); let r = keyset(remove); let before = th(cs, canon(m, w, 0));
    let (t, u) = choose|t: T, u: T| #![trigger mutates(cs, t, u, am(add), keyset(remove))] mutates(cs, t, u, am(add), keyset(remove)) && sized(hsize(cs), t, true) && hashed(cs, t) && before == th(cs, t) && after == th(cs, u) && hv(p.Elements@) == xs(t)
        && known(t, keyset(add + remove), am(add), keyset(remove), 0) && (forall|j: int| 0 <= j < remove.len() ==> shown(#[trigger] remove[j], p.Results@[add.len() + j], t, 0));
    real_fits(cs, t, m, 0);
    if remove.len() == 0 { assert(knone(r)); }
    assert(start(cs, t, m, a, r, 0)); fits_hash(cs, u, upd(m, a, r), 0);
}
// the added keys were not in the tree unless they were also removed
pub proof fn prop_added_absent(cs: Suite, add: Seq<px_Entry>, remove: Seq<px_Entry>, p: px_PrefixProof, m: M, after: Seq<u8>, i: int)
    requires turns(cs, add, remove, p, th(cs, canon(m, 8 * hsize(cs), 0)), after), full(cs, canon(m, 8 * hsize(cs), 0)), 0 <= i < add.len(), !keyset(remove)(add[i].VrfOutput@)
    ensures m(add[i].VrfOutput@).is_none()
{
    let w = 8 * hsize(cs); let before = th(cs, canon(m, w, 0)); let k = add[i].VrfOutput@;
    let (t, u) = choose|t: T, u: T| #![trigger mutates(cs, t, u, am(add), keyset(remove))] mutates(cs, t, u, am(add), keyset(remove)) && sized(hsize(cs), t, true) && hashed(cs, t) && before == th(cs, t) && after == th(cs, u) && hv(p.Elements@) == xs(t)
        && known(t, keyset(add + remove), am(add), keyset(remove), 0) && (forall|j: int| 0 <= j < remove.len() ==> shown(#[trigger] remove[j], p.Results@[add.len() + j], t, 0));
    real_fits(cs, t, m, 0); am_some(add, k); assert(keyset(add)(k)); assert(am(add)(k).is_some()); if m(k).is_some() { let ks = keyset(add + remove); assert(ks(k)); fits_at(cs, t, m, k, 0); }
}
pub proof fn fits_at(cs: Suite, t: T, m: M, k: Seq<u8>, d: int) requires fits(cs, t, m, d), !(at(t, k, d) is X), m(k).is_some() ensures at(t, k, d) == T::L(k, m(k).unwrap()) decreases t
{ match t { T::P(l, r, _) => { if bit(k, d) { fits_at(cs, *r, side(m, d, true), k, d + 1); } else { fits_at(cs, *l, side(m, d, false), k, d + 1); } } _ => {} } }
// a removed key that the proof shows to be in the tree was there, with that commitment
pub proof fn prop_removed_present(cs: Suite, add: Seq<px_Entry>, remove: Seq<px_Entry>, p: px_PrefixProof, m: M, after: Seq<u8>, j: int)
    requires turns(cs, add, remove, p, th(cs, canon(m, 8 * hsize(cs), 0)), after), full(cs, canon(m, 8 * hsize(cs), 0)), 0 <= j < remove.len()
    ensures psr_incl(p.Results@[add.len() + j]) ==> m(remove[j].VrfOutput@) == Some(remove[j].Commitment@), !psr_incl(p.Results@[add.len() + j]) ==> m(remove[j].VrfOutput@).is_none()
{
    let w = 8 * hsize(cs); let before = th(cs, canon(m, w, 0)); let k = remove[j].VrfOutput@;
    let (t, u) = choose|t: T, u: T| #![trigger mutates(cs, t, u, am(add), keyset(remove))] mutates(cs, t, u, am(add), keyset(remove)) && sized(hsize(cs), t, true) && hashed(cs, t) && before == th(cs, t) && after == th(cs, u) && hv(p.Elements@) == xs(t)
        && known(t, keyset(add + remove), am(add), keyset(remove), 0) && (forall|j: int| 0 <= j < remove.len() ==> shown(#[trigger] remove[j], p.Results@[add.len() + j], t, 0));
    real_fits(cs, t, m, 0); assert(shown(remove[j], p.Results@[add.len() + j], t, 0));
    if m(k).is_some() { fits_at(cs, t, m, k, 0); }
    if psr_incl(p.Results@[add.len() + j]) { fits_leaf(cs, t, m, k, remove[j].Commitment@, 0); }
}
pub proof fn fits_leaf(cs: Suite, t: T, m: M, k: Seq<u8>, c: Seq<u8>, d: int) requires fits(cs, t, m, d), at(t, k, d) == T::L(k, c) ensures m(k) == Some(c) decreases t
{ match t { T::P(l, r, _) => { if bit(k, d) { fits_leaf(cs, *r, side(m, d, true), k, c, d + 1); } else { fits_leaf(cs, *l, side(m, d, false), k, c, d + 1); } } _ => {} } }
