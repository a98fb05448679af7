//@use logproof.vrs
// ---- C03, C17: appending a leaf to the full subtrees
pub open spec fn rem(n: int, k: nat) -> int { n % pw(k) }
pub open spec fn bitk(n: int, k: nat) -> bool { (n / pw(k)) % 2 == 1 }
// the complete subtree of level k that ends where the leaves of bits below k of n begin
pub open spec fn fnode(n: int, k: nat) -> int { 2 * (n - rem(n, k + 1)) + pw(k) - 1 }
// the complete subtrees for the bits below k of n, from the highest
pub open spec fn subs(n: int, k: nat) -> Seq<u64> decreases k
{
    if k == 0 { Seq::empty() }
    else if bitk(n, (k - 1) as nat) { seq![fnode(n, (k - 1) as nat) as u64] + subs(n, (k - 1) as nat) }
    else { subs(n, (k - 1) as nat) }
}
// rem at two levels
pub proof fn rem_step(n: int, k: nat) requires n >= 0
    ensures 0 <= rem(n, k) < pw(k), rem(n, k + 1) == rem(n, k) + (if bitk(n, k) { pw(k) } else { 0 }), bitk(n, k) <==> rem(n, k + 1) >= pw(k), rem(n, k) <= n, rem(n, k + 1) <= n
{
    pw_pos(k); pw_pos(k + 1);
    let p = pw(k); let q = n / p; let r = n % p; let h = q / 2; let b = q % 2;
    assert(n == p * q + r && 0 <= r < p) by(nonlinear_arith) requires p > 0, q == n / p, r == n % p;
    assert(q == 2 * h + b);
    assert(n == (2 * p) * h + (b * p + r)) by(nonlinear_arith) requires n == p * q + r, q == 2 * h + b;
    assert(0 <= b * p + r < 2 * p) by(nonlinear_arith) requires b == 0 || b == 1, 0 <= r < p;
    assert(n == h * (2 * p) + (b * p + r)) by(nonlinear_arith) requires n == (2 * p) * h + (b * p + r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, 2 * p, h, b * p + r);
    assert(b * p == if b == 1 { p } else { 0 }) by(nonlinear_arith) requires b == 0 || b == 1;
    assert(h >= 0);
    assert((2 * p) * h >= 0) by(nonlinear_arith) requires h >= 0, p > 0;
    assert(p * q >= 0) by(nonlinear_arith) requires q >= 0, p > 0;
}
pub proof fn rem_mono(n: int, j: nat, k: nat) requires n >= 0, j <= k ensures rem(n, j) <= rem(n, k), rem(n, j) == rem(n, k) <==> rem(n, k) < pw(j) decreases k
{ rem_step(n, k); if j < k { rem_step(n, (k - 1) as nat); rem_mono(n, j, (k - 1) as nat); pw_mono(j, (k - 1) as nat); rem_step(n, j); } }
// no bits at or above j: nothing comes from there
pub proof fn subs_skip(n: int, j: nat, k: nat) requires n >= 0, j <= k, rem(n, k) < pw(j) ensures subs(n, k) == subs(n, j) decreases k
{ if j < k { rem_mono(n, j, k); rem_step(n, (k - 1) as nat); pw_mono(j, (k - 1) as nat); rem_mono(n, (k - 1) as nat, k); subs_skip(n, j, (k - 1) as nat); } }
pub proof fn rem_small(n: int, k: nat) requires 0 <= n < pw(k) ensures rem(n, k) == n
{ assert(n % pw(k) == n) by(nonlinear_arith) requires 0 <= n < pw(k); }
pub proof fn rem_div(n: int, k: nat) requires n >= 0 ensures n - rem(n, k) >= 0, (n - rem(n, k)) % pw(k) == 0
{ pw_pos(k); let p = pw(k); let q = n / p; assert(n - n % p == p * q && p * q >= 0) by(nonlinear_arith) requires p > 0, q == n / p, n >= 0; mul_mod(q, p); }
// the node for a set bit
pub proof fn fnode_props(n: int, k: nat) requires n >= 0
    ensures fnode(n, k) >= 0, lvl(fnode(n, k)) == k, nl(fnode(n, k)) == 2 * (n - rem(n, k + 1)), nh(fnode(n, k)) == 2 * (n - rem(n, k + 1)) + 2 * pw(k) - 1, bitk(n, k) ==> nh(fnode(n, k)) <= 2 * n - 1
{
    rem_div(n, k + 1); rem_step(n, k); pw_pos(k); pw_pos(k + 1);
    let b = n - rem(n, k + 1);
    dbl_mod(b, pw(k + 1));
    half_mod(2 * b, pw(k + 1));
    lvl_of(2 * b, k);
}
// the subtrees of x are those for the bits below m, when x holds just the leaves of these bits
pub proof fn subs_eq(n: int, m: nat, x: int)
    requires n >= 1, n <= 0x8000_0000_0000_0000, rem(n, m) >= 1, 0 <= x < 2 * n - 1, nl(x) == 2 * (n - rem(n, m)), nh(x) >= 2 * n - 1
    ensures fsubs(x, 2 * n - 1) == subs(n, m)
    decreases lvl(x)
{
    let w = 2 * n - 1; let j = lvl(x); let r = rem(n, m);
    lvl_props(x); pw_pos(j);
    assert(x == 2 * (n - r) + pw(j) - 1);
    if j >= m { pw_mono(m, j); rem_step(n, m); assert(pw(j) < 2 * r); assert(pw(j) >= pw(m) > r);
        // then the left half of x alone reaches beyond the end
        rem_div(n, m);
        if j > m { assert(2 * pw(m) <= pw(j)) by { pw_mono(m, j); } assert(false); }
        // j == m: nl(x) is a multiple of 2 * pw(m), and r < pw(m)
    }
    if nh(x) <= w {
        assert(r == pw(j));
        if j >= m { assert(false); }
        rem_mono(n, j + 1, m); pw_pos(j + 1);
        subs_skip(n, j + 1, m);
        rem_step(n, j);
        assert(rem(n, j) == 0);
        pw_pos(0);
        assert(pw(0) == 1);
        subs_skip(n, 0, j);
        assert(subs(n, j) =~= Seq::<u64>::empty());
        assert(fnode(n, j) == x);
        assert(subs(n, j + 1) =~= seq![x as u64]);
        assert(fsubs(x, w) =~= seq![x as u64]);
    } else {
        assert(r < pw(j));
        if j == 0 { assert(pw(0) == 1); assert(false); }
        let i = (j - 1) as nat;
        pw_pos(j); left_props(x);
        right_exists(x, w);
        let rt = right_of(x, w);
        assert(pw(i) < r);
        assert(j <= m) by { if j > m { assert(i >= m); pw_mono(m, i); rem_step(n, m); assert(false); } };
        subs_skip(n, j, m);
        rem_mono(n, j, m);
        rem_step(n, i);
        assert(bitk(n, i));
        assert(fnode(n, i) == left_of(x));
        assert(rem(n, i) == r - pw(i));
        lvl_props(rt);
        subs_eq(n, i, rt);
        assert(fsubs(x, w) =~= seq![left_of(x) as u64] + fsubs(rt, w));
    }
}
pub proof fn froot_subs(n: int, k: nat) requires 1 <= n <= 0x8000_0000_0000_0000, n < pw(k) ensures froot(n) == subs(n, k)
{ root_exists(2 * n - 1); rem_small(n, k); subs_eq(n, k, root_of(2 * n - 1)); }
// the first of the subtrees
pub proof fn subs_first(n: int, t: nat) -> (k: nat)
    requires n >= 0, n <= 0x8000_0000_0000_0000, subs(n, t).len() > 0
    ensures k < t, bitk(n, k), subs(n, t) == seq![fnode(n, k) as u64] + subs(n, k), forall|j: nat| k < j < t ==> !bitk(n, j), lvl(subs(n, t)[0] as int) == k, fnode(n, k) == subs(n, t)[0]
    decreases t
{
    if t == 0 { 0 }
    else {
        let i = (t - 1) as nat;
        if bitk(n, i) { fnode_props(n, i); lvl_props(fnode(n, i)); i } else { subs_first(n, i) }
    }
}
pub proof fn subs_none(n: int, t: nat) requires n >= 0, subs(n, t).len() == 0 ensures forall|j: nat| j < t ==> !bitk(n, j) decreases t
{ if t > 0 { subs_none(n, (t - 1) as nat); } }

// ---- the step of a carry
// all bits of n below i are set
pub open spec fn ones(n: int, i: nat) -> bool { rem(n, i) == pw(i) - 1 }
// the complete subtree of level i that ends with leaf n
pub open spec fn cnode(n: int, i: nat) -> int { 2 * (n + 1 - pw(i)) + pw(i) - 1 }
pub proof fn carry_step(cs: Suite, l: Log, n: int, i: nat) requires n >= 0, ones(n, i), bitk(n, i)
    ensures ones(n, i + 1), mv(cs, l, cnode(n, i + 1)) == sha(cs, encx(fnode(n, i), mv(cs, l, fnode(n, i))) + encx(cnode(n, i), mv(cs, l, cnode(n, i)))),
        (fnode(n, i) % 2 == 0) == (i == 0), (cnode(n, i) % 2 == 0) == (i == 0)
{
    rem_step(n, i); pw_pos(i); pw_pos(i + 1);
    rem_div(n, i + 1); fnode_props(n, i); lvl_props(fnode(n, i));
    let b = n - rem(n, i + 1);
    assert(b == n + 1 - pw(i + 1));
    dbl_mod(b, pw(i + 1));
    let p = cnode(n, i + 1);
    pw_pos(i + 2);
    lvl_of(2 * b, i + 1);
    assert(lvl(p) == i + 1);
    assert(left_of(p) == fnode(n, i));
    assert(rstep_of(p) == cnode(n, i));
    mv_inner(cs, l, p);
    rstep_props(p); lvl_props(cnode(n, i));
}

pub proof fn bits_below(n: int, i: nat, k: nat) requires n >= 0, ones(n, i), !bitk(n, i), k > i ensures rem(n, k) <= pw(k) - 1 - pw(i) decreases k
{
    pw_pos(k); rem_step(n, i);
    if k > i + 1 { bits_below(n, i, (k - 1) as nat); rem_step(n, (k - 1) as nat); } 
}
// n + 1: the carry stops at bit i
pub proof fn inc_above(n: int, i: nat, k: nat) requires n >= 0, ones(n, i), !bitk(n, i), k > i
    ensures rem(n + 1, k) == rem(n, k) + 1, bitk(n + 1, k) == bitk(n, k), fnode(n + 1, k) == fnode(n, k)
{
    pw_pos(i); bits_below(n, i, k); bits_below(n, i, k + 1);
    inc_rem(n, k); inc_rem(n, k + 1);
    rem_step(n, k); rem_step(n + 1, k); pw_pos(i);
}
pub proof fn inc_rem(n: int, k: nat) requires n >= 0, rem(n, k) + 1 < pw(k) ensures rem(n + 1, k) == rem(n, k) + 1
{
    pw_pos(k); let p = pw(k); let q = n / p; let r = n % p;
    assert(n == p * q + r) by(nonlinear_arith) requires p > 0, q == n / p, r == n % p;
    assert(n + 1 == q * p + (r + 1)) by(nonlinear_arith) requires n == p * q + r;
    rem_step(n, k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, p, q, r + 1);
}
pub proof fn inc_below(n: int, i: nat) requires n >= 0, ones(n, i), !bitk(n, i)
    ensures bitk(n + 1, i), fnode(n + 1, i) == cnode(n, i), forall|k: nat| k < i ==> !#[trigger] bitk(n + 1, k)
{
    bits_below(n, i, i + 1); pw_pos(i); pw_pos(i + 1); rem_step(n, i);
    inc_rem(n, i + 1); rem_step(n + 1, i);
    assert forall|k: nat| k < i implies !#[trigger] bitk(n + 1, k) by { rem_mono(n + 1, k + 1, i); rem_step(n + 1, k); rem_step(n + 1, i); pw_pos(k); };
}
// every leaf count below pw(k) + ... has no bit from k on
pub proof fn no_high(n: int, k: nat, j: nat) requires 0 <= n < pw(k), k <= j ensures !bitk(n, j), rem(n, j) == n
{ pw_mono(k, j); rem_small(n, j); pw_pos(j + 1); rem_small(n, j + 1); rem_step(n, j); }

// ch has a value for each set bit from lo on, and nil elsewhere
pub open spec fn shape(cs: Suite, n: int, ch: Seq<Slice<u8>>, lo: int) -> bool {
    forall|k: int| lo <= k < ch.len() ==> (#[trigger] ch[k]).nil@ == !bitk(n, k as nat) && (!ch[k].nil@ ==> ch[k]@.len() == hsize(cs))
}
pub open spec fn chain_ok(cs: Suite, l: Log, n: int, ch: Seq<Slice<u8>>, lo: int) -> bool {
    forall|k: int| lo <= k < ch.len() && bitk(n, k as nat) ==> (#[trigger] ch[k])@ == mv(cs, l, fnode(n, k as nat))
}
// l is a log whose first n leaves have the given full subtrees and whose next leaf is added
pub open spec fn grows_by(cs: Suite, l: Log, n: int, full: Seq<Slice<u8>>, added: Seq<u8>) -> bool { (n > 0 ==> vals(full) == true_full(cs, l, n)) && l(n) == added }
pub open spec fn mvs(cs: Suite, l: Log, xs: Seq<u64>) -> Seq<Seq<u8>> { xs.map_values(|x: u64| mv(cs, l, x as int)) }
pub open spec fn full_ok(cs: Suite, v: Seq<Slice<u8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).nil@ && v[i]@.len() == hsize(cs) }
pub proof fn nlevels(n: int) -> (k: nat) requires 1 <= n <= 0x4000_0000_0000_0000 ensures k == lvl(root_of(2 * n - 1)), n <= pw(k), k <= 62
{
    let w = 2 * n - 1; let r = root_of(w);
    root_exists(w); lvl_props(r); pw64();
    if lvl(r) >= 63 { pw_mono(63, lvl(r)); assert(false); }
    lvl(r)
}

pub open spec fn nil_below(ch: Seq<Slice<u8>>, hi: int) -> bool { forall|k: int| 0 <= k < hi && k < ch.len() ==> (#[trigger] ch[k]).nil@ }
pub open spec fn all_ok(cs: Suite, n: int, ch: Seq<Slice<u8>>, lo: int, m: int, full: Seq<Slice<u8>>, added: Seq<u8>) -> bool {
    forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) ==> chain_ok(cs, l, m, ch, lo)
}
pub open spec fn carry_ok(cs: Suite, n: int, c: Seq<u8>, i: int, full: Seq<Slice<u8>>, added: Seq<u8>) -> bool {
    forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) ==> c == mv(cs, l, cnode(n, i as nat))
}
pub open spec fn out_ok(cs: Suite, n: int, out: Seq<Slice<u8>>, i: int, k: nat, full: Seq<Slice<u8>>, added: Seq<u8>) -> bool {
    forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) ==> vals(out) + mvs(cs, l, subs(n + 1, i as nat)) == mvs(cs, l, subs(n + 1, k))
}
pub proof fn fill_step(cs: Suite, n: int, ch: Seq<Slice<u8>>, t: int, k: nat, i: int, full: Seq<Slice<u8>>, added: Seq<u8>)
    requires n >= 1, shape(cs, n, ch, t), nil_below(ch, t), all_ok(cs, n, ch, t, n, full, added), k < t <= ch.len(), bitk(n, k), forall|j: nat| k < j < t ==> !bitk(n, j),
        full_ok(cs, full), 0 <= i < full.len(), full.len() == froot(n).len(), froot(n)[i] == fnode(n, k)
    ensures shape(cs, n, ch.update(k as int, full[i]), k as int), nil_below(ch.update(k as int, full[i]), k as int), all_ok(cs, n, ch.update(k as int, full[i]), k as int, n, full, added)
{
    let c2 = ch.update(k as int, full[i]);
    assert forall|j: int| k <= j < c2.len() implies (#[trigger] c2[j]).nil@ == !bitk(n, j as nat) && (!c2[j].nil@ ==> c2[j]@.len() == hsize(cs)) by {
        if j > k { assert(c2[j] == ch[j]); if j < t { assert(!bitk(n, j as nat)); } }
    }
    assert forall|j: int| 0 <= j < k && j < c2.len() implies (#[trigger] c2[j]).nil@ by { assert(c2[j] == ch[j]); }
    assert forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) implies chain_ok(cs, l, n, c2, k as int) by {
        assert(chain_ok(cs, l, n, ch, t));
        assert(vals(full)[i] == true_full(cs, l, n)[i]);
        assert(full[i]@ == mv(cs, l, fnode(n, k)));
        assert forall|j: int| k <= j < c2.len() && bitk(n, j as nat) implies (#[trigger] c2[j])@ == mv(cs, l, fnode(n, j as nat)) by {
            if j > k { assert(c2[j] == ch[j]); if j < t { assert(!bitk(n, j as nat)); } }
        }
    }
}
pub proof fn fill_end(cs: Suite, n: int, ch: Seq<Slice<u8>>, t: nat, full: Seq<Slice<u8>>, added: Seq<u8>)
    requires n >= 0, shape(cs, n, ch, t as int), nil_below(ch, t as int), all_ok(cs, n, ch, t as int, n, full, added), subs(n, t).len() == 0
    ensures shape(cs, n, ch, 0), all_ok(cs, n, ch, 0, n, full, added)
{
    subs_none(n, t);
    assert forall|j: int| 0 <= j < ch.len() implies (#[trigger] ch[j]).nil@ == !bitk(n, j as nat) && (!ch[j].nil@ ==> ch[j]@.len() == hsize(cs)) by { if j < t { assert(!bitk(n, j as nat)); } }
    assert forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) implies chain_ok(cs, l, n, ch, 0) by {
        assert(chain_ok(cs, l, n, ch, t as int));
        assert forall|j: int| 0 <= j < ch.len() && bitk(n, j as nat) implies (#[trigger] ch[j])@ == mv(cs, l, fnode(n, j as nat)) by { if j < t { assert(!bitk(n, j as nat)); } }
    }
}
pub proof fn carry_go(cs: Suite, n: int, ch: Seq<Slice<u8>>, i: int, c: Seq<u8>, none: Slice<u8>, full: Seq<Slice<u8>>, added: Seq<u8>)
    requires n >= 0, 0 <= i < ch.len(), ones(n, i as nat), shape(cs, n, ch, i), nil_below(ch, i), all_ok(cs, n, ch, i, n, full, added), carry_ok(cs, n, c, i, full, added), !ch[i].nil@, none.nil@
    ensures ones(n, (i + 1) as nat), shape(cs, n, ch.update(i, none), i + 1), nil_below(ch.update(i, none), i + 1), all_ok(cs, n, ch.update(i, none), i + 1, n, full, added),
        carry_ok(cs, n, sha(cs, enc(i == 0, ch[i]@) + enc(i == 0, c)), i + 1, full, added)
{
    let c2 = ch.update(i, none); let k = i as nat;
    assert(bitk(n, k));
    carry_step(cs, |j: int| added, n, k);
    assert forall|j: int| i + 1 <= j < c2.len() implies (#[trigger] c2[j]).nil@ == !bitk(n, j as nat) && (!c2[j].nil@ ==> c2[j]@.len() == hsize(cs)) by { assert(c2[j] == ch[j]); }
    assert forall|j: int| 0 <= j < i + 1 && j < c2.len() implies (#[trigger] c2[j]).nil@ by { if j < i { assert(c2[j] == ch[j]); } }
    assert forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) implies chain_ok(cs, l, n, c2, i + 1) by {
        assert(chain_ok(cs, l, n, ch, i));
        assert forall|j: int| i + 1 <= j < c2.len() && bitk(n, j as nat) implies (#[trigger] c2[j])@ == mv(cs, l, fnode(n, j as nat)) by { assert(c2[j] == ch[j]); }
    }
    assert forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) implies sha(cs, enc(i == 0, ch[i]@) + enc(i == 0, c)) == mv(cs, l, cnode(n, (i + 1) as nat)) by {
        assert(chain_ok(cs, l, n, ch, i));
        assert(ch[i]@ == mv(cs, l, fnode(n, k)));
        carry_step(cs, l, n, k);
    }
}
pub proof fn carry_break(cs: Suite, n: int, ch: Seq<Slice<u8>>, i: int, c: Slice<u8>, full: Seq<Slice<u8>>, added: Seq<u8>)
    requires n >= 0, 0 <= i < ch.len(), ones(n, i as nat), shape(cs, n, ch, i), nil_below(ch, i), all_ok(cs, n, ch, i, n, full, added), carry_ok(cs, n, c@, i, full, added), ch[i].nil@, !c.nil@, c@.len() == hsize(cs)
    ensures shape(cs, n + 1, ch.update(i, c), 0), all_ok(cs, n, ch.update(i, c), 0, n + 1, full, added)
{
    let c2 = ch.update(i, c); let k = i as nat;
    assert(!bitk(n, k));
    inc_below(n, k);
    assert forall|j: int| 0 <= j < c2.len() implies (#[trigger] c2[j]).nil@ == !bitk(n + 1, j as nat) && (!c2[j].nil@ ==> c2[j]@.len() == hsize(cs)) by {
        if j != i { assert(c2[j] == ch[j]); }
        if j < i { assert(!bitk(n + 1, j as nat)); }
        if j > i { inc_above(n, k, j as nat); }
    }
    assert forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) implies chain_ok(cs, l, n + 1, c2, 0) by {
        assert(chain_ok(cs, l, n, ch, i));
        assert forall|j: int| 0 <= j < c2.len() && bitk(n + 1, j as nat) implies (#[trigger] c2[j])@ == mv(cs, l, fnode(n + 1, j as nat)) by {
            if j != i { assert(c2[j] == ch[j]); }
            if j < i { assert(!bitk(n + 1, j as nat)); }
            if j > i { inc_above(n, k, j as nat); }
        }
    }
}
pub proof fn out_step(cs: Suite, n: int, ch: Seq<Slice<u8>>, i: int, k: nat, out: Seq<Slice<u8>>, full: Seq<Slice<u8>>, added: Seq<u8>)
    requires 0 <= n < 0x4000_0000_0000_0000, 0 <= i < ch.len(), shape(cs, n + 1, ch, 0), all_ok(cs, n, ch, 0, n + 1, full, added), out_ok(cs, n, out, i + 1, k, full, added), full_ok(cs, out)
    ensures !ch[i].nil@ ==> full_ok(cs, out.push(ch[i])) && out_ok(cs, n, out.push(ch[i]), i, k, full, added), ch[i].nil@ ==> out_ok(cs, n, out, i, k, full, added)
{
    let j = i as nat;
    assert(subs(n + 1, (i + 1) as nat) == if bitk(n + 1, j) { seq![fnode(n + 1, j) as u64] + subs(n + 1, j) } else { subs(n + 1, j) });
    fnode_props(n + 1, j);
    if !ch[i].nil@ {
        lvl_props(fnode(n + 1, j)); pw_pos(j);
        assert(0 <= fnode(n + 1, j) <= u64::MAX);
        assert forall|l: Log| #[trigger] grows_by(cs, l, n, full, added) implies vals(out.push(ch[i])) + mvs(cs, l, subs(n + 1, j)) == mvs(cs, l, subs(n + 1, k)) by {
            assert(chain_ok(cs, l, n + 1, ch, 0));
            assert(ch[i]@ == mv(cs, l, fnode(n + 1, j)));
            assert(vals(out.push(ch[i])) + mvs(cs, l, subs(n + 1, j)) =~= vals(out) + mvs(cs, l, subs(n + 1, (i + 1) as nat)));
        }
    }
}
pub proof fn first_leaf(cs: Suite, l: Log) ensures true_full(cs, l, 1) =~= seq![l(0)]
{
    pw_pos(0); pw_pos(1); assert(pw(0) == 1); assert(pw(1) == 2);
    froot_subs(1, 1); assert(subs(1, 0) =~= Seq::<u64>::empty());
    rem_small(1, 1);
    assert(bitk(1, 0)); assert(fnode(1, 0) == 0);
    assert(subs(1, 1) =~= seq![0u64]);
    lvl_of_leaf0();
}
pub proof fn lvl_of_leaf0() ensures lvl(0) == 0 { lvl_props(0); pw_pos(0); if lvl(0) > 0 { pw_pos(lvl(0)); pw_pos((lvl(0) - 1) as nat); } }
pub proof fn leaf_start(cs: Suite, n: int, full: Seq<Slice<u8>>, added: Seq<u8>) requires n >= 0 ensures ones(n, 0), carry_ok(cs, n, added, 0, full, added)
{
    pw_pos(0); assert(pw(0) == 1); rem_step(n, 0);
    assert(cnode(n, 0) == 2 * n);
    leaf_lvl(n);
}
pub proof fn leaf_lvl(n: int) requires n >= 0 ensures lvl(2 * n) == 0 { lvl_props(2 * n); }

//@go tree/log.Append
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::allow_complex_invariants]
pub fn lg_Append(cs: Suite, n: u64, fullSubtrees: Slice<Slice<u8>>, added: Slice<u8>) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires n < 0x4000_0000_0000_0000, n > 0 ==> fullSubtrees@.len() == froot(n as int).len(), full_ok(cs, fullSubtrees@), !added.nil@, added@.len() == hsize(cs)
    ensures r.1.is_none(), full_ok(cs, r.0@),
        forall|l: Log| (n > 0 ==> vals(fullSubtrees@) == true_full(cs, l, n as int)) && l(n as int) == added@ ==> vals(r.0@) == #[trigger] true_full(cs, l, n + 1)
//@hint entry
    let ghost full = fullSubtrees@; let ghost n0 = n as int; let ghost added0 = added@;
//@hint return 1
    proof { assert forall|l: Log| l(n as int) == added@ implies vals(ret.0@) == #[trigger] true_full(cs, l, n + 1) by { first_leaf(cs, l); assert(vals(ret.0@) =~= seq![l(0)]); } }
//@hint after call lm_Level 1
    proof { lvl_props(root as int); }
//@hint before loop 1
    let ghost L = chain@.len() as nat;
    let ghost mut T: nat = L;
    proof {
        let k = nlevels(n0); root_exists(2 * n0 - 1); pw_pos(k); pw_pos(k + 1); pw_pos(k + 2);
        assert(L == k + 2); assert(pw(L) == 4 * pw(k)); rem_small(n0, L); froot_subs(n0, L);
    }
//@loop 1
    invariant n == n0, 1 <= n0 < 0x4000_0000_0000_0000, chain@.len() == L, T <= L <= 64, SEQ@ == froot(n0), full == fullSubtrees@, added@ == added0, full.len() == froot(n0).len(), full_ok(cs, full),
        SEQ@.skip(IDX as int) =~= subs(n0, T), shape(cs, n0, chain@, T as int), nil_below(chain@, T as int), all_ok(cs, n0, chain@, T as int, n0, full, added0),
//@hint loop 1 top
    let ghost t0 = T; let ghost ch0 = chain@;
    proof {
        assert(SEQ@.skip(IDX - 1).len() > 0); T = subs_first(n0, T); fnode_props(n0, T); lvl_props(fnode(n0, T));
        assert(SEQ@.skip(IDX - 1)[0] == x); assert(SEQ@.skip(IDX - 1).skip(1) =~= SEQ@.skip(IDX as int));
        assert((seq![fnode(n0, T) as u64] + subs(n0, T)).skip(1) =~= subs(n0, T));
        fill_step(cs, n0, ch0, t0 as int, T, IDX - 1, full, added0);
    }
//@hint after loop 1
    proof { fill_end(cs, n0, chain@, T, full, added0); }
//@hint before loop 2
    let ghost L = chain@.len() as nat;
    proof { leaf_start(cs, n0, full, added0); }
//@loop 2
    invariant_except_break
        ones(n0, IDX as nat), shape(cs, n0, chain@, IDX as int), nil_below(chain@, IDX as int), all_ok(cs, n0, chain@, IDX as int, n0, full, added0), carry_ok(cs, n0, carry.value@, IDX as int, full, added0),
        carry.leaf == (IDX == 0), !carry.value.nil@, carry.value@.len() == hsize(cs),
    invariant n0 >= 1, chain@.len() == L, SEQ@.len() == L, rem(n0, L) == n0, n0 + 1 < pw(L),
    ensures shape(cs, n0 + 1, chain@, 0), all_ok(cs, n0, chain@, 0, n0 + 1, full, added0),
//@hint loop 2 top
    let ghost ch0 = chain@; let ghost c0 = carry.value;
//@hint break 1
    proof { carry_break(cs, n0, ch0, IDX2 - 1, c0, full, added0); }
//@hint loop 2 bottom
    proof { carry_go(cs, n0, ch0, IDX - 1, c0@, chain@[IDX - 1], full, added0); assert(chain@ =~= ch0.update(IDX - 1, chain@[IDX - 1])); }
//@hint before loop 3
    let ghost L = chain@.len() as nat;
    proof { assert(out_ok(cs, n0, out@, L as int, L, full, added0)) by { assert forall|l: Log| #[trigger] grows_by(cs, l, n0, full, added0) implies vals(out@) + mvs(cs, l, subs(n0 + 1, L)) == mvs(cs, l, subs(n0 + 1, L)) by { assert(vals(out@) + mvs(cs, l, subs(n0 + 1, L)) =~= mvs(cs, l, subs(n0 + 1, L))); } } }
//@loop 3
    invariant -1 <= i < L, chain@.len() == L, 1 <= n0 < 0x4000_0000_0000_0000, shape(cs, n0 + 1, chain@, 0), all_ok(cs, n0, chain@, 0, n0 + 1, full, added0), full_ok(cs, out@), out_ok(cs, n0, out@, i + 1, L, full, added0),
    decreases i + 1
//@hint loop 3 top
    proof { out_step(cs, n0, chain@, i as int, L, out@, full, added0); }
//@hint return 2
    proof {
        let L = chain@.len() as nat;
        froot_subs(n0 + 1, L);
        assert forall|l: Log| vals(full) == true_full(cs, l, n0) && l(n0) == added0 implies vals(ret.0@) == #[trigger] true_full(cs, l, n0 + 1) by {
            assert(grows_by(cs, l, n0, full, added0));
            assert(mvs(cs, l, subs(n0 + 1, 0)) =~= Seq::<Seq<u8>>::empty());
            assert(vals(out@) + mvs(cs, l, subs(n0 + 1, 0)) =~= vals(out@));
        }
    }
//@end
