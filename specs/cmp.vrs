//@use prelude.vrs
// ---- lexicographic order
pub open spec fn cmp(a: Seq<u8>, b: Seq<u8>) -> int decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } } else if b.len() == 0 { 1 } else if a[0] < b[0] { -1 } else if a[0] > b[0] { 1 } else { cmp(a.drop_first(), b.drop_first()) }
}
//@ext bytes.Compare
pub fn bytes_Compare(a: Slice<u8>, b: Slice<u8>) -> (r: i64) ensures r == cmp(a@, b@)
//@end
pub proof fn cmp_vals(a: Seq<u8>, b: Seq<u8>) ensures cmp(a, b) == -1 || cmp(a, b) == 0 || cmp(a, b) == 1, cmp(a, b) == 0 <==> a == b, cmp(b, a) == -cmp(a, b) decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { cmp_vals(a.drop_first(), b.drop_first()); if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); } }
    else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires cmp(a, b) == -1, cmp(b, c) == -1 ensures cmp(a, c) == -1 decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { if a[0] == b[0] && b[0] == c[0] { cmp_trans(a.drop_first(), b.drop_first(), c.drop_first()); } } }
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool { cmp(a, b) == -1 }
