// Trusted model of Go's built-in types. Every method below is external_body:
// its contract is assumed, and is what Go's language specification says.

pub struct GoErr { pub code: Ghost<int> }
impl Clone for GoErr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for GoErr {}

#[verifier::external_body]
pub fn err_new() -> (r: Option<GoErr>) ensures r.is_some(), r.unwrap().code@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn err_const(code: Ghost<int>) -> (r: Option<GoErr>) ensures r == Some(GoErr { code: code }) { unimplemented!() }
#[verifier::external_body]
pub fn err_eq(a: Option<GoErr>, b: Option<GoErr>) -> (r: bool)
    ensures a.is_none() != b.is_none() ==> !r, a.is_none() && b.is_none() ==> r,
        a.is_some() && b.is_some() && a.unwrap().code@ != b.unwrap().code@ ==> !r,
        a.is_some() && b.is_some() && a.unwrap().code@ == b.unwrap().code@ && a.unwrap().code@ != 0 ==> r,
{ unimplemented!() }
//@ext errors.New
pub fn errors_New(msg: Str) -> (r: Option<GoErr>) ensures r.is_some(), r.unwrap().code@ == 0
//@end

pub struct Str { pub s: Ghost<Seq<u8>> }
impl Clone for Str { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Str {}
impl Str {
    #[verifier::external_body]
    pub fn lit(s: Ghost<Seq<u8>>) -> (r: Str) ensures r.s == s { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Str) ensures r.s@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: i64) ensures r == self.s@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: Slice<u8>) ensures r@ == self.s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn str_of(b: Slice<u8>) -> (r: Str) ensures r.s@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: Str, b: Str) -> (r: bool) ensures r == (a.s@ =~= b.s@) { unimplemented!() }
#[verifier::external_body]
pub fn str_concat(a: Str, b: Str) -> (r: Str) ensures r.s@ == a.s@ + b.s@ { unimplemented!() }

pub struct Slice<T> { pub nil: Ghost<bool>, pub s: Ghost<Seq<T>> }
impl<T> Clone for Slice<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> Copy for Slice<T> {}
impl<T> View for Slice<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.s@ } }
impl<T: Copy> Slice<T> {
    #[verifier::external_body]
    pub fn nil() -> (r: Self) ensures r@.len() == 0, r@ == Seq::<T>::empty(), r.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r@ == Seq::<T>::empty(), !r.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn make(n: i64, z: T) -> (r: Self)
        requires n >= 0
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == z, !r.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: i64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nil(&self) -> (r: bool) ensures r == self.nil@, r ==> self@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: i64) -> (r: T)
        requires 0 <= i < self@.len()
        ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: i64, v: T)
        requires 0 <= i < old(self)@.len()
        ensures final(self)@ == old(self)@.update(i as int, v), final(self).nil == old(self).nil { unimplemented!() }
    #[verifier::external_body]
    pub fn push(self, v: T) -> (r: Self) ensures r@ == self@.push(v), !r.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn concat(self, o: Self) -> (r: Self)
        ensures r@ == self@ + o@, r.nil@ == (self.nil@ && o@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, i: i64, j: i64) -> (r: Self)
        requires 0 <= i <= j <= self@.len()
        ensures r@ == self@.subrange(i as int, j as int), r.nil == self.nil { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_at(&mut self, lo: i64, src: Self) -> (r: i64)
        requires 0 <= lo <= old(self)@.len()
        ensures final(self).nil == old(self).nil,
            r == (if src@.len() <= old(self)@.len() - lo { src@.len() as int } else { old(self)@.len() - lo }),
            final(self)@ == old(self)@.subrange(0, lo as int) + src@.subrange(0, r as int) + old(self)@.subrange(lo + r, old(self)@.len() as int)
    { unimplemented!() }
    // copy(self[lo:hi], src)
    #[verifier::external_body]
    pub fn copy_in(&mut self, lo: i64, hi: i64, src: Self) -> (r: i64)
        requires 0 <= lo <= hi <= old(self)@.len()
        ensures final(self).nil == old(self).nil,
            r == (if src@.len() <= hi - lo { src@.len() as int } else { hi - lo }),
            final(self)@ == old(self)@.subrange(0, lo as int) + src@.subrange(0, r as int) + old(self)@.subrange(lo + r, old(self)@.len() as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn diverge<T>() -> (r: T) ensures false { unimplemented!() }

pub struct GoMap<K, V> { pub nil: Ghost<bool>, pub m: Ghost<Map<K, V>> }
impl<K, V> Clone for GoMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<K, V> Copy for GoMap<K, V> {}
impl<K, V> View for GoMap<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { self.m@ } }
impl<K: Copy, V: Copy> GoMap<K, V> {
    #[verifier::external_body]
    pub fn nil() -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r@ == Map::<K, V>::empty(), !r.nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nil(&self) -> (r: bool) ensures r == self.nil@, r ==> self@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn has(&self, k: K) -> (r: bool) ensures r == self@.dom().contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn index(&self, k: K) -> (r: V) requires self@.dom().contains(k) ensures r == self@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or(&self, k: K, z: V) -> (r: V)
        ensures r == (if self@.dom().contains(k) { self@[k] } else { z }) { unimplemented!() }
    // m[k] of the comma-ok form, for pointer values that are never nil when present
    #[verifier::external_body]
    pub fn lookup(&self, k: K, z: V) -> (r: V)
        ensures self@.dom().contains(k) ==> r == self@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V)
        requires !old(self).nil@
        ensures final(self)@ == old(self)@.insert(k, v), !final(self).nil@ { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: K)
        ensures final(self)@ == old(self)@.remove(k), final(self).nil == old(self).nil { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: i64) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
    // the keys in the (arbitrary) order a range loop visits them
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Slice<K>)
        ensures self@.dom().finite(), r@.no_duplicates(), r@.len() == self@.dom().len(),
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(#[trigger] r@[i]),
            forall|k: K| self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i] == k,
    { unimplemented!() }
}

// Go's shifts (counts may reach or exceed the width), conversions and
// wrapping arithmetic.
#[verifier::external_body]
pub fn go_shr_u64(x: u64, k: u64) -> (r: u64) ensures r == (if k < 64 { x >> k } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shl_u64(x: u64, k: u64) -> (r: u64) ensures r == (if k < 64 { x << k } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shr_u32(x: u32, k: u64) -> (r: u32) ensures r == (if k < 32 { x >> (k as u32) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shl_u32(x: u32, k: u64) -> (r: u32) ensures r == (if k < 32 { x << (k as u32) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shl_u32_i(x: u32, k: i64) -> (r: u32) requires k >= 0 ensures r == (if k < 32 { x << (k as u32) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shr_u8_i(x: u8, k: i64) -> (r: u8) requires k >= 0 ensures r == (if k < 8 { x >> (k as u8) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shl_u8_i(x: u8, k: i64) -> (r: u8) requires k >= 0 ensures r == (if k < 8 { x << (k as u8) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_shr_u8(x: u8, k: u64) -> (r: u8) ensures r == (if k < 8 { x >> (k as u8) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn go_add_i64(x: i64, y: i64) -> (r: i64) ensures r == (if x + y > i64::MAX { x + y - 0x1_0000_0000_0000_0000 } else if x + y < i64::MIN { x + y + 0x1_0000_0000_0000_0000 } else { x + y }) { unimplemented!() }
#[verifier::external_body]
pub fn go_u64_i64(x: u64) -> (r: i64) ensures x <= i64::MAX ==> r == x, x > i64::MAX ==> r == x - 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_i64_u64(x: i64) -> (r: u64) ensures x >= 0 ==> r == x, x < 0 ==> r == x + 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_u64_u32(x: u64) -> (r: u32) ensures r == x % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_u64_u16(x: u64) -> (r: u16) ensures r == x % 0x1_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_u64_u8(x: u64) -> (r: u8) ensures r == x % 0x100 { unimplemented!() }
#[verifier::external_body]
pub fn go_u32_u8(x: u32) -> (r: u8) ensures r == x % 0x100 { unimplemented!() }
#[verifier::external_body]
pub fn go_u32_u16(x: u32) -> (r: u16) ensures r == x % 0x1_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_u16_u8(x: u16) -> (r: u8) ensures r == x % 0x100 { unimplemented!() }
#[verifier::external_body]
pub fn go_i64_u32(x: i64) -> (r: u32) ensures 0 <= x <= u32::MAX ==> r == x, r as int == (x as int) % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_i64_u16(x: i64) -> (r: u16) ensures 0 <= x <= u16::MAX ==> r == x, r as int == (x as int) % 0x1_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_i64_u8(x: i64) -> (r: u8) ensures 0 <= x <= u8::MAX ==> r == x, r as int == (x as int) % 0x100 { unimplemented!() }
#[verifier::external_body]
pub fn go_div_i64(a: i64, b: i64) -> (r: i64) requires b != 0 ensures a >= 0 && b > 0 ==> r == (a as int) / (b as int) { unimplemented!() }
#[verifier::external_body]
pub fn go_rem_i64(a: i64, b: i64) -> (r: i64) requires b != 0 ensures a >= 0 && b > 0 ==> r == (a as int) % (b as int) { unimplemented!() }
#[verifier::external_body]
pub fn go_add_u32(a: u32, b: u32) -> (r: u32) ensures r == (a + b) % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_sub_u32(a: u32, b: u32) -> (r: u32) ensures r as int == (a - b) % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_mul_u32(a: u32, b: u32) -> (r: u32) ensures r == (a * b) % 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_add_u64(a: u64, b: u64) -> (r: u64) ensures r == (a + b) % 0x1_0000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn go_sub_u64(a: u64, b: u64) -> (r: u64) ensures r as int == (a - b) % 0x1_0000_0000_0000_0000 { unimplemented!() }

//@ext bytes.Equal
pub fn bytes_Equal(a: Slice<u8>, b: Slice<u8>) -> (r: bool) ensures r == (a@ == b@)
//@end

// slices of uint64
pub open spec fn sorted_u64(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
//@ext slices.Sort[Slice<u64>]
pub fn slices_Sort_u64(v: &mut Slice<u64>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), sorted_u64(final(v)@), final(v)@.len() == old(v)@.len(),
        final(v).nil == old(v).nil,
        forall|x: u64| final(v)@.contains(x) <==> old(v)@.contains(x),
        old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
//@end
//@ext slices.BinarySearch[Slice<u64>,u64]
pub fn slices_BinarySearch_u64(v: Slice<u64>, x: u64) -> (r: (i64, bool))
    requires sorted_u64(v@)
    ensures 0 <= r.0 <= v@.len(),
        forall|i: int| 0 <= i < r.0 ==> v@[i] < x,
        forall|i: int| r.0 <= i < v@.len() ==> v@[i] >= x,
        r.1 == (r.0 < v@.len() && v@[r.0 as int] == x),
//@end
//@ext slices.Clone[Slice<u64>]
pub fn slices_Clone_u64(v: Slice<u64>) -> (r: Slice<u64>) ensures r == v
//@end
