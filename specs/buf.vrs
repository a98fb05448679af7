//@use prelude.vrs
// ---- bytes.Buffer. Trusted: writes append, and never fail.
pub struct Buf { pub b: Ghost<Seq<u8>> }
impl Clone for Buf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Buf {}
impl View for Buf { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.b@ } }
impl Buf { #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() } }
//@typemap bytes.Buffer Buf Buf::new()
//@nonnil bytes.Buffer
//@ext bytes.Buffer.Write
pub fn buf_Write(b: &mut Buf, s: Slice<u8>) -> (r: (i64, Option<GoErr>)) ensures final(b)@ == old(b)@ + s@, r.1.is_none()
//@end
//@ext bytes.Buffer.WriteByte
pub fn buf_WriteByte(b: &mut Buf, x: u8) -> (r: Option<GoErr>) ensures final(b)@ == old(b)@.push(x), r.is_none()
//@end
//@ext bytes.Buffer.Bytes
pub fn buf_Bytes(b: Buf) -> (r: Slice<u8>) ensures r@ == b@
//@end
//@ext bytes.Buffer.Len
pub fn buf_Len(b: Buf) -> (r: i64) ensures r == b@.len()
//@end
//@ext bytes.Buffer.Reset
pub fn buf_Reset(b: &mut Buf) ensures final(b)@ == Seq::<u8>::empty()
//@end
//@ext bytes.NewBuffer
pub fn buf_New(s: Slice<u8>) -> (r: Buf) ensures r@ == s@
//@end
