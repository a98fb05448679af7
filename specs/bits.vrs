//@use numbering.vrs
// ---- Bit patterns of node identifiers.
pub open spec fn mask_ok(x: u64, k: u64) -> bool { k < 64 && (x & sub(1u64 << k, 1)) == sub(1u64 << k, 1) && (x >> k) & 1 == 0 }

pub proof fn lvl_bound(x: u64) requires x < u64::MAX ensures lvl(x as int) <= 63, nh(x as int) <= u64::MAX, nl(x as int) >= 0
{
    let y = x as int;
    lvl_props(y);
    if lvl(y) >= 64 { pw_mono(64, lvl(y)); pw64(); assert(false); }
    pw64();
    lvl_of(0, 63);
    assert(under(y, 0x7fff_ffff_ffff_ffff));
    under_nested(y, 0x7fff_ffff_ffff_ffff);
}

pub proof fn lvl_mask(x: u64, k: u64) requires k < 64 ensures mask_ok(x, k) <==> lvl(x as int) == k decreases k
{
    if k == 0 {
        assert((x & sub(1u64 << 0u64, 1)) == sub(1u64 << 0u64, 1)) by(bit_vector);
        assert(((x >> 0u64) & 1 == 0) == (x % 2 == 0)) by(bit_vector);
        lvl_props(x as int);
    } else {
        let h = x >> 1u64;
        let j = (k - 1) as u64;
        assert(h == x / 2) by(bit_vector) requires h == x >> 1u64;
        lvl_mask(h, j);
        assert(((x & sub(1u64 << k, 1)) == sub(1u64 << k, 1) && (x >> k) & 1 == 0)
            <==> (x % 2 == 1 && (h & sub(1u64 << j, 1)) == sub(1u64 << j, 1) && (h >> j) & 1 == 0)) by(bit_vector)
            requires h == x >> 1u64, j == sub(k, 1), 0 < k < 64;
    }
}

pub proof fn left_bits(x: u64, k: u64) requires x < u64::MAX, lvl(x as int) == k, k >= 1
    ensures k < 64, (x ^ (1u64 << ((k - 1) as u64))) == left_of(x as int), 0 <= left_of(x as int) < x
{
    lvl_bound(x); lvl_mask(x, k);
    let j = (k - 1) as u64;
    pw_shl(j);
    assert(((x ^ (1u64 << j)) == sub(x, 1u64 << j)) && (1u64 << j) <= x) by(bit_vector)
        requires 0 < k < 64, j == sub(k, 1), (x & sub(1u64 << k, 1)) == sub(1u64 << k, 1);
    left_props(x as int);
}

pub proof fn rstep_bits(x: u64, k: u64) requires x < u64::MAX, lvl(x as int) == k, k >= 1
    ensures k < 64, (x ^ (3u64 << ((k - 1) as u64))) == rstep_of(x as int), x < rstep_of(x as int) < u64::MAX
{
    lvl_bound(x); lvl_mask(x, k);
    let j = (k - 1) as u64;
    pw_shl(j); pw_pos(j as nat); pw_pos(k as nat);
    rstep_props(x as int);
    assert((x ^ (3u64 << j)) == add(x, 1u64 << j)) by(bit_vector)
        requires 0 < k < 64, j == sub(k, 1), (x & sub(1u64 << k, 1)) == sub(1u64 << k, 1), (x >> k) & 1 == 0;
}

pub open spec fn is_pstep(p: int, x: int) -> bool { lvl(p) == lvl(x) + 1 && p >= 0 && (x == left_of(p) || x == rstep_of(p)) }

pub proof fn pstep_bits(x: u64, k: u64, b: u64)
    requires x < u64::MAX, lvl(x as int) == k, k < 63, b == (x >> ((k + 1) as u64)) & 1
    ensures is_pstep(((x | (1u64 << k)) ^ (b << ((k + 1) as u64))) as int, x as int),
        ((x | (1u64 << k)) ^ (b << ((k + 1) as u64))) < u64::MAX
{
    lvl_mask(x, k);
    let j = (k + 1) as u64;
    let p = (x | (1u64 << k)) ^ (b << j);
    pw_shl(k); pw_pos(k as nat); pw_pos(j as nat);
    assert((p & sub(1u64 << j, 1)) == sub(1u64 << j, 1) && (p >> j) & 1 == 0 && p < u64::MAX
        && (b == 0 ==> p == add(x, 1u64 << k) && x <= u64::MAX - (1u64 << k)) && (b == 1 ==> p == sub(x, 1u64 << k) && (1u64 << k) <= x) && (b == 0 || b == 1)) by(bit_vector)
        requires k < 63, j == add(k, 1), (x & sub(1u64 << k, 1)) == sub(1u64 << k, 1), (x >> k) & 1 == 0,
            b == (x >> j) & 1, p == (x | (1u64 << k)) ^ (b << j);
    lvl_mask(p, j);
}

pub proof fn shr_step(x: u64, k: u64) requires k < 63 ensures ((x >> k) / 2) == (x >> ((k + 1) as u64))
{ let j = (k + 1) as u64; assert(((x >> k) / 2) == (x >> j)) by(bit_vector) requires k < 63, j == add(k, 1); }

pub proof fn shr_pos(x: u64, k: u64) requires k < 64 ensures ((x >> k) > 0) == (x >= pw(k as nat))
{ pw_shl(k); assert(((x >> k) > 0) == (x >= (1u64 << k))) by(bit_vector) requires k < 64; }

pub open spec fn is_log2(r: int, x: int) -> bool { 0 <= r <= 63 && pw(r as nat) <= x < pw((r + 1) as nat) }

pub proof fn root_of_log2(r: u64, w: u64) requires w >= 1, is_log2(r as int, w as int) ensures (1u64 << r) >= 1, is_root((1u64 << r) - 1, w as int)
{
    pw_shl(r); pw_pos(r as nat); pw_pos((r + 1) as nat);
    lvl_of(0, r as nat);
}
// parent in the tree of w nodes
pub open spec fn is_parent(p: int, x: int, w: int) -> bool {
    0 <= p < w && 0 <= x < w && lvl(p) >= 1 && lvl(x) < lvl(p) && ((x < p && x == left_of(p)) || (x > p && is_right(x, p, w)))
}
// c looks like x within the first w nodes
pub open spec fn same_cut(c: int, x: int, w: int) -> bool { c >= 0 && nl(c) == nl(x) && min2(nh(c), w) == min2(nh(x), w) }

pub proof fn parent_up(c: int, p: int, x: int, w: int)
    requires 0 <= x < w, w <= u64::MAX, same_cut(c, x, w), is_pstep(p, c), !is_root(x, w)
    ensures p >= w ==> same_cut(p, x, w) && lvl(p) < 63, p < w ==> is_parent(p, x, w)
{
    lvl_props(x); lvl_props(c); lvl_props(p);
    left_props(p); rstep_props(p);
    if p >= w {
        if c == rstep_of(p) { assert(false); }
        assert(nl(p) == nl(x));
        assert(nh(c) == p);
        if lvl(p) >= 63 {
            pw64(); pw_mono(63, lvl(p));
            // nl(p) is a multiple of 2^64 below w
            half_facts(p);
            assert(is_root(x, w));
        }
    } else {
        if c == left_of(p) {
            assert(nh(c) == p);
            assert(nh(x) == p);
            assert(x == c);
        } else {
            assert(nl(x) == p + 1);
            assert(under(x, p));
            under_nested(x, p);
            assert(is_right(x, p, w));
        }
    }
}
pub proof fn half_facts(p: int) requires p >= 0, lvl(p) >= 63, nl(p) < u64::MAX ensures nl(p) == 0
{
    lvl_props(p); pw64();
    let m = 2 * nw(p);
    pw_mono(63, lvl(p));
    mod_q(nl(p), m);
    let q = nl(p) / m;
    if q >= 1 { assert(m * q >= m) by(nonlinear_arith) requires q >= 1, m > 0; }
    if q <= 0 { assert(m * q <= 0) by(nonlinear_arith) requires q <= 0, m > 0; }
}
