//@use fmt.vrs
//@use leaf.vrs
pub proof fn be_is_unbe(x: int, n: nat) ensures be_bytes(x, n) == unbe(x, n) decreases n { if n > 0 { be_is_unbe(x / 256, (n - 1) as nat); } }
//@go tree/transparency/structs.writeNumeric[u64]
pub fn st_writeNumeric_u64(buf_r: &mut Buf, val: u64) ensures final(buf_r)@ == old(buf_r)@ + unbe(val as int, 8)
//@end
