//@use hash.vrs
//@nonnil tree/transparency/structs.LogEntry
// ---- the hash of a log entry: what the log tree's leaves are
pub open spec fn be_bytes(x: int, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { be_bytes(x / 256, (n - 1) as nat).push((x % 256) as u8) } }
pub open spec fn leaf_bytes(ts: u64, root: Seq<u8>) -> Seq<u8> { be_bytes(ts as int, 8) + root }
pub open spec fn leaf_hash(cs: Suite, ts: u64, root: Seq<u8>) -> Seq<u8> { sha(cs, leaf_bytes(ts, root)) }
//@go tree/transparency/structs.LogEntry.Hash
pub fn st_LogEntryHash(le: st_LogEntry, cs: Suite) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() ==> r.0@ == leaf_hash(cs, le.Timestamp, le.PrefixTree@) && used(cs, leaf_bytes(le.Timestamp, le.PrefixTree@)) && !r.0.nil@
//@hint entry
    proof { be_is_unbe(le.Timestamp as int, 8); }
//@end
