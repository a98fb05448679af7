//@use fmtkeys.vrs
// ---- C19: the in-memory transparency store
//@nonnil db/memory.TransparencyStore db/memory.LogStore db/memory.PrefixStore db/memory.AuditorStore
//@typemap db.TransparencyStore AnyStore AnyStore::any()
//@typemap db.LogStore AnyLog AnyLog::any()
//@typemap db.PrefixStore AnyPrefix AnyPrefix::any()
pub struct AnyLog { pub s: dm_LogStore }
impl Clone for AnyLog { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AnyLog {}
#[verifier::external_body]
pub fn AnyLog_of_dm_LogStore(s: dm_LogStore) -> (r: AnyLog) ensures r.s == s { unimplemented!() }
pub struct AnyPrefix { pub s: dm_PrefixStore }
impl Clone for AnyPrefix { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AnyPrefix {}
#[verifier::external_body]
pub fn AnyPrefix_of_dm_PrefixStore(s: dm_PrefixStore) -> (r: AnyPrefix) ensures r.s == s { unimplemented!() }
pub struct AnyStore { pub s: dm_TransparencyStore }
impl Clone for AnyStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AnyStore {}
#[verifier::external_body]
pub fn AnyStore_of_dm_TransparencyStore(s: dm_TransparencyStore) -> (r: AnyStore) ensures r.s == s { unimplemented!() }
//@ext fmt.Sprintf|%x:%v
pub fn fmt_hex_dec(b: Slice<u8>, n: u32) -> (r: Str) ensures r.s@ == hex(b@) + seq![58u8] + dec(n as u64)
//@end
pub enum Key { Head, Aud, Index(Bytes), Version(Bytes, u32), Entry(u64), Log(u64), Prefix(Str) }
pub open spec fn str_of_seq(k: Bytes) -> Str { Str { s: Ghost(k) } }
pub open spec fn has(v: Slice<u8>) -> Option<Bytes> { if v.nil@ { None } else { Some(v@) } }
pub open spec fn vkey(l: Bytes, v: u32) -> Str { str_of_seq(hex(l) + seq![58u8] + dec(v as u64)) }
pub open spec fn at<K>(m: GoMap<K, Slice<u8>>, k: K) -> Option<Bytes> { if m@.dom().contains(k) { has(m@[k]) } else { None } }
pub open spec fn sees(t: dm_TransparencyStore, k: Key) -> Option<Bytes> {
    match k {
        Key::Head => has(t.TreeHead),
        Key::Aud => has(t.Auditor),
        Key::Index(l) => at(t.Indices, str_of_seq(hex(l))),
        Key::Version(l, v) => at(t.Versions, vkey(l, v)),
        Key::Entry(n) => at(t.LogEntries, n),
        Key::Log(n) => at(t.logStore.Data, n),
        Key::Prefix(p) => at(t.prefixStore.Data, p),
    }
}
pub open spec fn nonil<K>(m: GoMap<K, Slice<u8>>) -> bool { !m.nil@ && forall|k: K| #[trigger] m@.dom().contains(k) ==> !m@[k].nil@ }
pub open spec fn wf(t: dm_TransparencyStore) -> bool { nonil(t.Indices) && nonil(t.Versions) && nonil(t.LogEntries) && nonil(t.logStore.Data) && nonil(t.prefixStore.Data) }
pub proof fn keys_distinct() ensures
    forall|a: Bytes, b: Bytes| #![trigger str_of_seq(hex(a)), str_of_seq(hex(b))] str_of_seq(hex(a)) == str_of_seq(hex(b)) ==> a == b,
    forall|a: Bytes, v: u32, b: Bytes, w: u32| #![trigger vkey(a, v), vkey(b, w)] vkey(a, v) == vkey(b, w) ==> a == b && v == w
{
    assert forall|a: Bytes, b: Bytes| #![trigger str_of_seq(hex(a)), str_of_seq(hex(b))] str_of_seq(hex(a)) == str_of_seq(hex(b)) implies a == b by { assert(str_of_seq(hex(a)).s@ == hex(a)); assert(str_of_seq(hex(b)).s@ == hex(b)); };
    assert forall|a: Bytes, v: u32, b: Bytes, w: u32| #![trigger vkey(a, v), vkey(b, w)] vkey(a, v) == vkey(b, w) implies a == b && v == w by {
        assert(vkey(a, v).s@ == hex(a) + seq![58u8] + dec(v as u64)); assert(vkey(b, w).s@ == hex(b) + seq![58u8] + dec(w as u64));
        lemma_colon(hex(a), dec(v as u64), hex(b), dec(w as u64));
    };
}
pub open spec fn wrote(o: dm_TransparencyStore, n: dm_TransparencyStore, key: Key, v: Option<Bytes>) -> bool {
    &&& !o.ReadOnly && n.ReadOnly == o.ReadOnly && wf(n)
    &&& sees(n, key) == v
    &&& forall|k: Key| k != key ==> #[trigger] sees(n, k) == sees(o, k)
}
pub open spec fn read(t: dm_TransparencyStore, k: Key, v: Slice<u8>) -> bool { has(v) == sees(t, k) }
//@go db/memory.dup
pub fn dm_dup(b: Slice<u8>) -> (r: Slice<u8>) ensures r@ == b@, r.nil == b.nil
//@end
//@go db/memory.NewTransparencyStore
pub fn dts_New() -> (r: dm_TransparencyStore) ensures wf(r), !r.ReadOnly, forall|k: Key| #[trigger] sees(r, k) == None::<Bytes>
//@end
// a clone sees what the store sees, and is read-only in all its parts
//@go db/memory.TransparencyStore.Clone
pub fn dts_Clone(ts: dm_TransparencyStore) -> (r: AnyStore) ensures r.s.ReadOnly, r.s.logStore.readOnly, r.s.prefixStore.readOnly, wf(ts) ==> wf(r.s), forall|k: Key| #[trigger] sees(r.s, k) == sees(ts, k)
//@end
//@go db/memory.TransparencyStore.LogStore
pub fn dts_LogStore(ts: dm_TransparencyStore) -> (r: AnyLog) ensures r.s == ts.logStore
//@end
//@go db/memory.TransparencyStore.PrefixStore
pub fn dts_PrefixStore(ts: dm_TransparencyStore) -> (r: AnyPrefix) ensures r.s == ts.prefixStore
//@end
//@go db/memory.NewAuditorStore
pub fn das_New() -> (r: dm_AuditorStore) ensures r.Data.nil@
//@end
//@go db/memory.AuditorStore.GetState
pub fn das_Get(as_: dm_AuditorStore) -> (r: (Slice<u8>, Option<GoErr>)) ensures r.1.is_none(), r.0@ == as_.Data@, r.0.nil == as_.Data.nil
//@end
//@go db/memory.AuditorStore.PutState
pub fn das_Put(as_r: &mut dm_AuditorStore, raw: Slice<u8>) -> (r: Option<GoErr>) ensures r.is_none(), final(as_r).Data@ == raw@, final(as_r).Data.nil == raw.nil
//@end
//@go db/memory.TransparencyStore.Commit
//@attr maypanic
pub fn dts_Commit(ts: dm_TransparencyStore) -> (r: Option<GoErr>) ensures !ts.ReadOnly, r.is_none()
//@end
//@go db/memory.TransparencyStore.GetTreeHead
pub fn dts_GetTreeHead(ts: dm_TransparencyStore) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>))
    ensures r.2.is_none() ==> read(ts, Key::Head, r.0) && read(ts, Key::Aud, r.1)
//@end
//@go db/memory.TransparencyStore.BatchGetIndex
pub fn dts_BatchGetIndex(ts: dm_TransparencyStore, labels: Slice<Slice<u8>>) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    requires wf(ts)
    ensures r.1.is_none() ==> r.0@.len() == labels@.len() && forall|i: int| 0 <= i < labels@.len() ==> read(ts, Key::Index((#[trigger] labels@[i])@), r.0@[i])
//@loop 1
    invariant SEQ == labels, out@.len() == labels@.len(), forall|i: int| 0 <= i < IDX ==> read(ts, Key::Index((#[trigger] labels@[i])@), out@[i])
    decreases SEQ@.len() - IDX
//@hint after call fmt_hex 1
    proof { assert(RES == str_of_seq(hex(label@))); }
//@end
//@go db/memory.TransparencyStore.GetVersion
pub fn dts_GetVersion(ts: dm_TransparencyStore, label: Slice<u8>, ver: u32) -> (r: (Slice<u8>, Option<GoErr>))
    requires wf(ts)
    ensures r.1.is_none() ==> read(ts, Key::Version(label@, ver), r.0)
//@hint after call fmt_hex_dec 1
    proof { assert(RES == vkey(label@, ver)); }
//@end
//@go db/memory.TransparencyStore.PutTreeHead
//@attr maypanic
pub fn dts_PutTreeHead(ts_r: &mut dm_TransparencyStore, raw: Slice<u8>) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_none(), wrote(*old(ts_r), *final(ts_r), Key::Head, has(raw))
//@hint entry
    proof { keys_distinct(); }
//@end
//@go db/memory.TransparencyStore.PutAuditorTreeHead
//@attr maypanic
pub fn dts_PutAuditorTreeHead(ts_r: &mut dm_TransparencyStore, raw: Slice<u8>) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_none(), wrote(*old(ts_r), *final(ts_r), Key::Aud, has(raw))
//@hint entry
    proof { keys_distinct(); }
//@end
//@go db/memory.TransparencyStore.PutIndex
//@attr maypanic
pub fn dts_PutIndex(ts_r: &mut dm_TransparencyStore, label: Slice<u8>, data: Slice<u8>) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_some() <==> data.nil@, data.nil@ ==> *final(ts_r) == *old(ts_r), !data.nil@ ==> wrote(*old(ts_r), *final(ts_r), Key::Index(label@), Some(data@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call fmt_hex 1
    proof { assert(RES == str_of_seq(hex(label@))); }
//@end
//@go db/memory.TransparencyStore.DeleteIndex
//@attr maypanic
pub fn dts_DeleteIndex(ts_r: &mut dm_TransparencyStore, label: Slice<u8>) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_none(), wrote(*old(ts_r), *final(ts_r), Key::Index(label@), None)
//@hint entry
    proof { keys_distinct(); }
//@hint after call fmt_hex 1
    proof { assert(RES == str_of_seq(hex(label@))); }
//@end
//@go db/memory.TransparencyStore.PutVersion
//@attr maypanic
pub fn dts_PutVersion(ts_r: &mut dm_TransparencyStore, label: Slice<u8>, ver: u32, data: Slice<u8>) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_some() <==> data.nil@, data.nil@ ==> *final(ts_r) == *old(ts_r), !data.nil@ ==> wrote(*old(ts_r), *final(ts_r), Key::Version(label@, ver), Some(data@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call fmt_hex_dec 1
    proof { assert(RES == vkey(label@, ver)); }
//@end
//@go db/memory.TransparencyStore.DeleteVersion
//@attr maypanic
pub fn dts_DeleteVersion(ts_r: &mut dm_TransparencyStore, label: Slice<u8>, ver: u32) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_none(), wrote(*old(ts_r), *final(ts_r), Key::Version(label@, ver), None)
//@hint entry
    proof { keys_distinct(); }
//@hint after call fmt_hex_dec 1
    proof { assert(RES == vkey(label@, ver)); }
//@end
//@go db/memory.TransparencyStore.Put
//@attr maypanic
pub fn dts_Put(ts_r: &mut dm_TransparencyStore, key: u64, data: Slice<u8>) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_some() <==> data.nil@, data.nil@ ==> *final(ts_r) == *old(ts_r), !data.nil@ ==> wrote(*old(ts_r), *final(ts_r), Key::Entry(key), Some(data@))
//@hint entry
    proof { keys_distinct(); }
//@end
//@go db/memory.TransparencyStore.Delete
//@attr maypanic
pub fn dts_Delete(ts_r: &mut dm_TransparencyStore, key: u64) -> (r: Option<GoErr>)
    requires wf(*old(ts_r))
    ensures r.is_none(), wrote(*old(ts_r), *final(ts_r), Key::Entry(key), None)
//@hint entry
    proof { keys_distinct(); }
//@end
//@go db/memory.TransparencyStore.BatchGet
pub fn dts_BatchGet(ts: dm_TransparencyStore, keys: Slice<u64>) -> (r: (GoMap<u64, Slice<u8>>, Option<GoErr>))
    requires nonil(ts.LogEntries)
    ensures r.1.is_none() && nonil(r.0) && (forall|k: u64| #[trigger] r.0@.dom().contains(k) <==> keys@.contains(k) && at(ts.LogEntries, k).is_some())
        && (forall|k: u64| #[trigger] r.0@.dom().contains(k) ==> at(r.0, k) == at(ts.LogEntries, k))
//@loop 1
    invariant SEQ == keys, nonil(out), forall|k: u64| #[trigger] out@.dom().contains(k) <==> SEQ@.subrange(0, IDX as int).contains(k) && at(ts.LogEntries, k).is_some(),
        forall|k: u64| #[trigger] out@.dom().contains(k) ==> at(out, k) == at(ts.LogEntries, k)
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let s = SEQ1@.subrange(0, IDX1 - 1); assert(SEQ1@.subrange(0, IDX1 as int) =~= s.push(key)); assert forall|k: u64| #[trigger] s.push(key).contains(k) <==> s.contains(k) || k == key by { if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(key)[i] == k); } if k == key { assert(s.push(key)[s.len() as int] == k); } } }
//@hint after loop 1
    proof { assert(SEQ1@.subrange(0, SEQ1@.len() as int) =~= keys@); }
//@end
//@go db/memory.LogStore.BatchGet
pub fn dls_BatchGet(ls: dm_LogStore, keys: Slice<u64>) -> (r: (GoMap<u64, Slice<u8>>, Option<GoErr>))
    requires nonil(ls.Data)
    ensures r.1.is_none() && nonil(r.0) && (forall|k: u64| #[trigger] r.0@.dom().contains(k) <==> keys@.contains(k) && at(ls.Data, k).is_some())
        && (forall|k: u64| #[trigger] r.0@.dom().contains(k) ==> at(r.0, k) == at(ls.Data, k))
//@loop 1
    invariant SEQ == keys, nonil(out), forall|k: u64| #[trigger] out@.dom().contains(k) <==> SEQ@.subrange(0, IDX as int).contains(k) && at(ls.Data, k).is_some(),
        forall|k: u64| #[trigger] out@.dom().contains(k) ==> at(out, k) == at(ls.Data, k)
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let s = SEQ1@.subrange(0, IDX1 - 1); assert(SEQ1@.subrange(0, IDX1 as int) =~= s.push(key)); assert forall|k: u64| #[trigger] s.push(key).contains(k) <==> s.contains(k) || k == key by { if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(key)[i] == k); } if k == key { assert(s.push(key)[s.len() as int] == k); } } }
//@hint after loop 1
    proof { assert(SEQ1@.subrange(0, SEQ1@.len() as int) =~= keys@); }
//@end
//@go db/memory.PrefixStore.BatchGet
pub fn dps_BatchGet(ps_r: &mut dm_PrefixStore, keys: Slice<Str>) -> (r: (GoMap<Str, Slice<u8>>, Option<GoErr>))
    requires nonil(old(ps_r).Data)
    ensures r.1.is_none() && nonil(r.0) && (forall|k: Str| #[trigger] r.0@.dom().contains(k) <==> keys@.contains(k) && at(old(ps_r).Data, k).is_some())
        && (forall|k: Str| #[trigger] r.0@.dom().contains(k) ==> at(r.0, k) == at(old(ps_r).Data, k)), final(ps_r).Data == old(ps_r).Data, final(ps_r).readOnly == old(ps_r).readOnly
//@loop 1
    invariant SEQ == keys, ps.Data == ps_r.Data, ps.readOnly == ps_r.readOnly, nonil(out), forall|k: Str| #[trigger] out@.dom().contains(k) <==> SEQ@.subrange(0, IDX as int).contains(k) && at(ps.Data, k).is_some(),
        forall|k: Str| #[trigger] out@.dom().contains(k) ==> at(out, k) == at(ps.Data, k)
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let s = SEQ1@.subrange(0, IDX1 - 1); assert(SEQ1@.subrange(0, IDX1 as int) =~= s.push(key)); assert forall|k: Str| #[trigger] s.push(key).contains(k) <==> s.contains(k) || k == key by { if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(key)[i] == k); } if k == key { assert(s.push(key)[s.len() as int] == k); } } }
//@hint after loop 1
    proof { assert(SEQ1@.subrange(0, SEQ1@.len() as int) =~= keys@); }
//@end
//@go db/memory.LogStore.Put
//@attr maypanic
pub fn dls_Put(ls_r: &mut dm_LogStore, key: u64, value: Slice<u8>) -> (r: Option<GoErr>)
    requires nonil(old(ls_r).Data)
    ensures r.is_some() <==> value.nil@, value.nil@ ==> *final(ls_r) == *old(ls_r), !value.nil@ ==> (!old(ls_r).readOnly && !final(ls_r).readOnly && nonil(final(ls_r).Data) && at(final(ls_r).Data, key) == Some(value@) && forall|k: u64| k != key ==> #[trigger] at(final(ls_r).Data, k) == at(old(ls_r).Data, k))
//@end
//@go db/memory.LogStore.Delete
//@attr maypanic
pub fn dls_Delete(ls_r: &mut dm_LogStore, key: u64) -> (r: Option<GoErr>)
    requires nonil(old(ls_r).Data)
    ensures r.is_none(), (!old(ls_r).readOnly && !final(ls_r).readOnly && nonil(final(ls_r).Data) && at(final(ls_r).Data, key) == None && forall|k: u64| k != key ==> #[trigger] at(final(ls_r).Data, k) == at(old(ls_r).Data, k))
//@end
//@go db/memory.PrefixStore.Put
//@attr maypanic
pub fn dps_Put(ps_r: &mut dm_PrefixStore, key: Str, value: Slice<u8>) -> (r: Option<GoErr>)
    requires nonil(old(ps_r).Data)
    ensures r.is_some() <==> value.nil@, value.nil@ ==> *final(ps_r) == *old(ps_r), !value.nil@ ==> (!old(ps_r).readOnly && !final(ps_r).readOnly && nonil(final(ps_r).Data) && at(final(ps_r).Data, key) == Some(value@) && forall|k: Str| k != key ==> #[trigger] at(final(ps_r).Data, k) == at(old(ps_r).Data, k))
//@end
//@go db/memory.PrefixStore.Delete
//@attr maypanic
pub fn dps_Delete(ps_r: &mut dm_PrefixStore, key: Str) -> (r: Option<GoErr>)
    requires nonil(old(ps_r).Data)
    ensures r.is_none(), (!old(ps_r).readOnly && !final(ps_r).readOnly && nonil(final(ps_r).Data) && at(final(ps_r).Data, key) == None && forall|k: Str| k != key ==> #[trigger] at(final(ps_r).Data, k) == at(old(ps_r).Data, k))
//@end
