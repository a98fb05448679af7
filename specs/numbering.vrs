//@use prelude.vrs
// ---- Theory of the implicit in-order numbered binary tree.
// Node x at level k (k trailing one bits) has the identifiers [nl(x), nh(x))
// below it; 2*x + 1 == nl(x) + nh(x).

pub open spec fn pw(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * pw((k - 1) as nat) } }
pub open spec fn lvl(x: int) -> nat decreases x { if x <= 0 || x % 2 == 0 { 0 } else { 1 + lvl(x / 2) } }
pub open spec fn nw(x: int) -> int { pw(lvl(x)) }
pub open spec fn nl(x: int) -> int { x - nw(x) + 1 }
pub open spec fn nh(x: int) -> int { x + nw(x) }
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
// y lies in the subtree of x
pub open spec fn under(y: int, x: int) -> bool { nl(x) <= y < nh(x) }

// multiples
pub proof fn mul_mod(q: int, m: int) requires m > 0 ensures (q * m) % m == 0, (m * q) % m == 0
{ vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, m); assert(m * q == q * m) by(nonlinear_arith); }
pub proof fn mod_q(l: int, m: int) requires m > 0, l % m == 0 ensures l == m * (l / m)
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, m); }
pub proof fn half_mod(l: int, m: int) requires m > 0, l % (2 * m) == 0 ensures l % m == 0, (l + m) % m == 0, l % 2 == 0, (l / 2) % m == 0, l >= 0 ==> l / 2 >= 0
{
    mod_q(l, 2 * m);
    let q = l / (2 * m);
    assert(l == m * (2 * q)) by(nonlinear_arith) requires l == (2 * m) * q;
    assert(l + m == m * (2 * q + 1)) by(nonlinear_arith) requires l == m * (2 * q);
    assert(l == 2 * (m * q)) by(nonlinear_arith) requires l == (2 * m) * q;
    mul_mod(2 * q, m); mul_mod(2 * q + 1, m); mul_mod(q, m);
}
pub proof fn dbl_mod(l: int, m: int) requires m > 0, l % m == 0 ensures (2 * l) % (2 * m) == 0
{
    mod_q(l, m);
    let q = l / m;
    assert(2 * l == (2 * m) * q) by(nonlinear_arith) requires l == m * q;
    mul_mod(q, 2 * m);
}
pub proof fn apart_mod(a: int, b: int, m: int) requires m > 0, a % m == 0, b % m == 0 ensures a == b || a >= b + m || b >= a + m
{
    mod_q(a, m); mod_q(b, m);
    let p = a / m; let q = b / m;
    if p > q { assert(m * p >= m * q + m) by(nonlinear_arith) requires p >= q + 1, m > 0; }
    if q > p { assert(m * q >= m * p + m) by(nonlinear_arith) requires q >= p + 1, m > 0; }
}

pub proof fn pw_pos(k: nat) ensures pw(k) >= 1, k >= 1 ==> pw(k) == 2 * pw((k - 1) as nat), pw(k) > k decreases k
{ if k > 0 { pw_pos((k - 1) as nat); } }

pub proof fn pw_mono(a: nat, b: nat) requires a <= b ensures pw(a) <= pw(b), a < b ==> 2 * pw(a) <= pw(b) decreases b
{ pw_pos(a); pw_pos(b); if a < b { pw_mono(a, (b - 1) as nat); pw_pos((b-1) as nat); } }

pub proof fn pw64() ensures pw(63) == 0x8000_0000_0000_0000, pw(64) == 0x1_0000_0000_0000_0000, pw(62) == 0x4000_0000_0000_0000
{ assert(pw(64) == 0x1_0000_0000_0000_0000) by(compute); assert(pw(63) == 0x8000_0000_0000_0000) by(compute); assert(pw(62) == 0x4000_0000_0000_0000) by(compute); }

pub proof fn pw_shl(k: u64) requires k < 64 ensures (1u64 << k) == pw(k as nat) decreases k
{
    if k == 0 { assert(1u64 << 0u64 == 1) by(bit_vector); }
    else {
        pw_shl((k - 1) as u64);
        assert((1u64 << k) == 2 * (1u64 << ((k - 1) as u64))) by(bit_vector) requires 0 < k < 64;
    }
}

// nw <= x + 1, so nl >= 0; the interval is aligned
pub proof fn lvl_props(x: int) requires x >= 0
    ensures nw(x) >= 1, nl(x) >= 0, nl(x) <= x < nh(x), (lvl(x) == 0) == (x % 2 == 0), nl(x) % (2 * nw(x)) == 0, nl(x) % 2 == 0, nh(x) % 2 == 1,
        lvl(x) < x + 1 || x == 0,
        lvl(x) >= 1 ==> nl(x) < x,
    decreases x
{
    pw_pos(lvl(x));
    if x % 2 != 0 {
        lvl_props(x / 2);
        let h = x / 2;
        assert(nw(x) == 2 * nw(h));
        assert(nl(x) == 2 * nl(h)) by { assert(x == 2 * h + 1); }
        assert(nl(h) % (2 * nw(h)) == 0);
        let m = 2 * nw(h);
        dbl_mod(nl(h), m); half_mod(nl(x), nw(x));
        pw_pos((lvl(x) - 1) as nat);
    } else {
        assert(lvl(x) == 0);
        assert(pw(0) == 1);
    }
}

// A number l + 2^k - 1 with l a multiple of 2^(k+1) has level k.
pub proof fn lvl_of(l: int, k: nat) requires l >= 0, l % pw(k + 1) == 0
    ensures lvl(l + pw(k) - 1) == k, nl(l + pw(k) - 1) == l, nh(l + pw(k) - 1) == l + pw(k + 1) - 1
    decreases k
{
    let x = l + pw(k) - 1;
    pw_pos(k); pw_pos(k + 1);
    if k > 0 {
        let p = pw(k);
        assert(pw(k + 1) == 2 * p);
        half_mod(l, p);
        lvl_of(l / 2, (k - 1) as nat);
        pw_pos((k - 1) as nat);
        assert(x == 2 * (l / 2) + 2 * pw((k - 1) as nat) - 1);
        assert(x / 2 == l / 2 + pw((k - 1) as nat) - 1);
        assert(x % 2 == 1);
        assert(lvl(x) == 1 + lvl(x / 2));
    } else {
        assert(pw(1) == 2) by { assert(pw(1) == 2 * pw(0)); }
        assert(pw(0) == 1);
        assert(x == l);
    }
}

pub open spec fn left_of(x: int) -> int { x - pw((lvl(x) - 1) as nat) }
pub open spec fn rstep_of(x: int) -> int { x + pw((lvl(x) - 1) as nat) }

pub proof fn left_props(x: int) requires x >= 0, lvl(x) >= 1
    ensures lvl(left_of(x)) == lvl(x) - 1, nl(left_of(x)) == nl(x), nh(left_of(x)) == x, 0 <= left_of(x) < x
{
    lvl_props(x);
    let k = lvl(x);
    pw_pos(k); pw_pos((k - 1) as nat);
    let p = pw(k);
    let l = nl(x);
    half_mod(l, p);
    lvl_of(l, (k - 1) as nat);
    assert(left_of(x) == l + pw((k - 1) as nat) - 1);
}

pub proof fn rstep_props(x: int) requires x >= 0, lvl(x) >= 1
    ensures lvl(rstep_of(x)) == lvl(x) - 1, nl(rstep_of(x)) == x + 1, nh(rstep_of(x)) == nh(x), x < rstep_of(x) < nh(x)
{
    lvl_props(x);
    let k = lvl(x);
    pw_pos(k); pw_pos((k - 1) as nat);
    let p = pw(k);
    let l = nl(x);
    half_mod(l, p);
    lvl_of(l + p, (k - 1) as nat);
    assert(rstep_of(x) == l + p + pw((k - 1) as nat) - 1);
}

// Subtrees are nested or disjoint.
pub proof fn laminar(x: int, y: int) requires x >= 0, y >= 0, lvl(x) <= lvl(y)
    ensures nh(x) <= nl(y) || nh(y) <= nl(x) || (nl(y) <= nl(x) && nh(x) <= nh(y)),
        lvl(x) == lvl(y) && nh(x) > nl(y) && nh(y) > nl(x) ==> x == y,
        // an identifier between the two is the gap one: distinct nodes of one level are separated
    decreases lvl(y) - lvl(x)
{
    lvl_props(x); lvl_props(y);
    let a = lvl(x); let b = lvl(y);
    pw_pos(a); pw_pos(b);
    if a == b {
        let m = 2 * pw(a);
        let l1 = nl(x); let l2 = nl(y);
        // both multiples of m, intervals have length m - 1
        assert(nh(x) == l1 + m - 1); assert(nh(y) == l2 + m - 1);
        apart_mod(l1, l2, m);
    } else {
        left_props(y); rstep_props(y);
        laminar(x, left_of(y));
        laminar(x, rstep_of(y));
        // x is below left, below right, or outside both; it is not y itself
        let lf = left_of(y); let rt = rstep_of(y);
        assert(nh(lf) == y && nl(rt) == y + 1);
        if nh(x) <= nl(lf) || nh(rt) <= nl(x) {
        } else if nl(lf) <= nl(x) && nh(x) <= nh(lf) {
        } else if nl(rt) <= nl(x) && nh(x) <= nh(rt) {
        } else {
            // nh(lf) <= nl(x) and nh(x) <= nl(rt): then nl(x) == y, contradiction (odd)
            assert(y % 2 == 1);
            assert(false);
        }
    }
}

// y under x, y != x: y is under exactly one child
pub proof fn under_split(y: int, x: int) requires x >= 0, y >= 0, under(y, x)
    ensures y == x || (lvl(x) >= 1 && y < x && under(y, left_of(x))) || (lvl(x) >= 1 && y > x && under(y, rstep_of(x))),
{
    lvl_props(x);
    if lvl(x) >= 1 { left_props(x); rstep_props(x); } else { assert(pw(0) == 1); }
}

// y under x: the whole subtree of y is inside the subtree of x
pub proof fn under_nested(y: int, x: int) requires x >= 0, y >= 0, under(y, x)
    ensures lvl(y) <= lvl(x), nl(x) <= nl(y), nh(y) <= nh(x), lvl(y) == lvl(x) ==> x == y
    decreases lvl(x)
{
    lvl_props(x); lvl_props(y);
    if y != x {
        under_split(y, x);
        if y < x { left_props(x); under_nested(y, left_of(x)); } else { rstep_props(x); under_nested(y, rstep_of(x)); }
    }
}

// ---- the tree of w nodes (identifiers [0, w))
pub open spec fn is_root(x: int, w: int) -> bool { 0 <= x < w && nl(x) == 0 && nh(x) >= w }
// r is the right child of x in the tree of w nodes
pub open spec fn is_right(r: int, x: int, w: int) -> bool {
    0 <= r < w && nl(r) == x + 1 && min2(nh(r), w) == min2(nh(x), w) && lvl(r) < lvl(x)
}
pub open spec fn right_of(x: int, w: int) -> int { choose|r: int| is_right(r, x, w) }
pub open spec fn root_of(w: int) -> int { choose|r: int| is_root(r, w) }

pub proof fn same_left_edge(x: int, y: int) requires x >= 0, y >= 0, nl(x) == nl(y), lvl(x) < lvl(y)
    ensures nh(x) <= y, x < y
{
    lvl_props(x); lvl_props(y); pw_mono(lvl(x), lvl(y)); pw_pos(lvl(x));
}
pub proof fn root_unique(x: int, y: int, w: int) requires is_root(x, w), is_root(y, w) ensures x == y
{
    if lvl(x) < lvl(y) { same_left_edge(x, y); } else if lvl(y) < lvl(x) { same_left_edge(y, x); }
}
pub proof fn right_unique(r: int, s: int, x: int, w: int) requires is_right(r, x, w), is_right(s, x, w) ensures r == s
{
    if lvl(r) < lvl(s) { same_left_edge(r, s); lvl_props(s); } else if lvl(s) < lvl(r) { same_left_edge(s, r); lvl_props(r); }
}
pub proof fn right_is(r: int, x: int, w: int) requires is_right(r, x, w) ensures right_of(x, w) == r
{ right_unique(r, right_of(x, w), x, w); }
pub proof fn root_is(r: int, w: int) requires is_root(r, w) ensures root_of(w) == r
{ root_unique(r, root_of(w), w); }

// the right child exists whenever x is an inner node and x + 1 < w
pub proof fn right_exists(x: int, w: int) requires 0 <= x, x + 1 < w, lvl(x) >= 1 ensures is_right(right_of(x, w), x, w)
{ rstep_props(x); right_exists_at(rstep_of(x), x, w); }
pub proof fn right_exists_at(r: int, x: int, w: int)
    requires 0 <= x, x + 1 < w, 0 <= r, nl(r) == x + 1, lvl(r) < lvl(x), min2(nh(r), w) == min2(nh(x), w)
    ensures is_right(right_of(x, w), x, w)
    decreases lvl(r)
{
    lvl_props(r);
    if r < w { assert(is_right(r, x, w)); }
    else {
        if lvl(r) == 0 { assert(pw(0) == 1); assert(false); }
        left_props(r);
        right_exists_at(left_of(r), x, w);
    }
}
pub proof fn root_exists(w: int) requires w >= 1 ensures is_root(root_of(w), w)
{ root_exists_at(w, 0); }
pub proof fn root_exists_at(w: int, k: nat) requires w >= pw(k) ensures is_root(root_of(w), w)
    decreases w - k
{
    pw_pos(k); pw_pos(k + 1);
    if w < pw(k + 1) {
        lvl_of(0, k);
        assert(is_root(pw(k) - 1, w));
    } else { pw_pos(k + 1); root_exists_at(w, k + 1); }
}
