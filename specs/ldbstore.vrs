//@use fmtkeys.vrs
//@use ldb.vrs
// ---- C19: the kinds of keys and their encodings
pub enum Key { Head, Aud, Index(Bytes), Version(Bytes, u32), Entry(u64), Log(u64), Prefix(Bytes) }
//@ext github.com/syndtr/goleveldb/leveldb/errors.New
pub fn ldberrors_New(msg: Str) -> (r: Option<GoErr>) ensures r.is_some(), r.unwrap().code@ == 0
//@end
//@ext fmt.Sprintf|%x:%x
pub fn fmt_hex_hex(b: Slice<u8>, n: u32) -> (r: Str) ensures r.s@ == hex(b@) + seq![58u8] + hexnum(n)
//@end
//@ext fmt.Sprint|uint64
pub fn fmt_dec(n: u64) -> (r: Str) ensures r.s@ == dec(n)
//@end
pub open spec fn enc(k: Key) -> Bytes {
    match k {
        Key::Head => seq![116u8, 114u8, 101u8, 101u8, 45u8, 104u8, 101u8, 97u8, 100u8],
        Key::Aud => seq![97u8, 117u8, 100u8, 105u8, 116u8, 111u8, 114u8, 45u8, 116u8, 114u8, 101u8, 101u8, 45u8, 104u8, 101u8, 97u8, 100u8],
        Key::Index(l) => seq![105u8] + hex(l),
        Key::Version(l, v) => seq![118u8] + (hex(l) + seq![58u8] + hexnum(v)),
        Key::Entry(n) => seq![116u8] + dec(n),
        Key::Log(n) => seq![108u8] + dec(n),
        Key::Prefix(k) => seq![112u8] + k,
    }
}
pub proof fn lemma_tail(x: u8, a: Bytes, b: Bytes) requires seq![x] + a == seq![x] + b ensures a == b { assert((seq![x] + a).subrange(1, (1 + a.len()) as int) =~= a); assert((seq![x] + b).subrange(1, (1 + b.len()) as int) =~= b); }
pub open spec fn first(k: Key) -> u8 { match k { Key::Head => 116, Key::Aud => 97, Key::Index(_) => 105, Key::Version(_, _) => 118, Key::Entry(_) => 116, Key::Log(_) => 108, Key::Prefix(_) => 112 } }
pub proof fn lemma_first(k: Key) ensures enc(k).len() > 0, enc(k)[0] == first(k)
{ match k { Key::Head => {} Key::Aud => {} Key::Index(l) => { assert(enc(k) == seq![105u8] + hex(l)); } Key::Version(l, v) => { assert(enc(k) == seq![118u8] + (hex(l) + seq![58u8] + hexnum(v))); } Key::Entry(n) => { assert(enc(k) == seq![116u8] + dec(n)); } Key::Log(n) => { assert(enc(k) == seq![108u8] + dec(n)); } Key::Prefix(p) => { assert(enc(k) == seq![112u8] + p); } } }
// different keys never collide
pub proof fn prop_keys_distinct(a: Key, b: Key) requires enc(a) == enc(b) ensures a == b
{
    let x = enc(a); let y = enc(b);
    lemma_first(a); lemma_first(b);
    assert(first(a) == first(b));
    match a {
        Key::Head => { assert(x[1] == 114u8); match b { Key::Entry(n) => { assert(y[1] == dec(n)[0]); } _ => {} } }
        Key::Entry(n) => { assert(x[1] == dec(n)[0]); assert(x.len() == 1 + dec(n).len()); match b { Key::Head => { assert(y[1] == 114u8); } Key::Entry(m) => { lemma_tail(116u8, dec(n), dec(m)); assert(n == m); } _ => {} } }
        Key::Aud => { assert(x[0] == 97u8);  }
        Key::Index(l) => { match b { Key::Index(m) => { lemma_tail(105u8, hex(l), hex(m)); } _ => {} } }
        Key::Version(l, v) => { match b { Key::Version(m, w) => { lemma_tail(118u8, hex(l) + seq![58u8] + hexnum(v), hex(m) + seq![58u8] + hexnum(w)); lemma_colon(hex(l), hexnum(v), hex(m), hexnum(w)); assert(l == m); assert(v == w); } _ => {} } }
        Key::Log(n) => { match b { Key::Log(m) => { lemma_tail(108u8, dec(n), dec(m)); } _ => {} } }
        Key::Prefix(k) => { match b { Key::Prefix(j) => { lemma_tail(112u8, k, j); } _ => {} } }
    }
}
pub proof fn keys_distinct() ensures forall|a: Key, b: Key| #![trigger enc(a), enc(b)] enc(a) == enc(b) ==> a == b { assert forall|a: Key, b: Key| #![trigger enc(a), enc(b)] enc(a) == enc(b) implies a == b by { prop_keys_distinct(a, b); } }
pub open spec fn sees(c: db_ldbConn, k: Key) -> Option<Bytes> { vis(c, enc(k)) }
pub open spec fn wrote(o: db_ldbConn, n: db_ldbConn, key: Key, v: Option<Bytes>) -> bool {
    &&& !o.readonly && !n.readonly && !n.batch.nil@ && n.conn == o.conn
    &&& sees(n, key) == v
    &&& forall|k: Key| k != key ==> #[trigger] sees(n, k) == sees(o, k)
}
pub open spec fn same(o: db_ldbConn, n: db_ldbConn) -> bool { n == o }
pub open spec fn read(c: db_ldbConn, k: Key, v: Slice<u8>) -> bool { match sees(c, k) { None => v.nil@, Some(b) => !v.nil@ && v@ == b } }
//@go db.ldbTransparencyStore.GetTreeHead
pub fn lts_GetTreeHead(ldb: db_ldbTransparencyStore) -> (r: (Slice<u8>, Slice<u8>, Option<GoErr>))
    ensures r.2.is_none() ==> read(ldb.conn, Key::Head, r.0) && (r.0.nil@ ==> r.1.nil@) && (!r.0.nil@ ==> read(ldb.conn, Key::Aud, r.1))
//@end
//@go db.ldbTransparencyStore.PutTreeHead
//@attr maypanic
pub fn lts_PutTreeHead(ldb_r: &mut db_ldbTransparencyStore, raw: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures r.is_none(), wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Head, if raw.nil@ { None } else { Some(raw@) })
//@hint entry
    proof { keys_distinct(); }
//@end
//@go db.ldbTransparencyStore.PutAuditorTreeHead
//@attr maypanic
pub fn lts_PutAuditorTreeHead(ldb_r: &mut db_ldbTransparencyStore, raw: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures r.is_none(), wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Aud, if raw.nil@ { None } else { Some(raw@) })
//@hint entry
    proof { keys_distinct(); }
//@end
//@go db.ldbTransparencyStore.BatchGetIndex
pub fn lts_BatchGetIndex(ldb: db_ldbTransparencyStore, labels: Slice<Slice<u8>>) -> (r: (Slice<Slice<u8>>, Option<GoErr>))
    ensures r.1.is_none() ==> r.0@.len() == labels@.len() && forall|i: int| 0 <= i < labels@.len() ==> read(ldb.conn, Key::Index((#[trigger] labels@[i])@), r.0@[i])
//@loop 1
    invariant SEQ == labels, out@.len() == labels@.len(), forall|i: int| 0 <= i < IDX ==> read(ldb.conn, Key::Index((#[trigger] labels@[i])@), out@[i]), forall|i: int| IDX <= i < labels@.len() ==> (#[trigger] out@[i]).nil@
    decreases SEQ@.len() - IDX
//@end
//@go db.ldbTransparencyStore.GetVersion
pub fn lts_GetVersion(ldb: db_ldbTransparencyStore, label: Slice<u8>, ver: u32) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() ==> read(ldb.conn, Key::Version(label@, ver), r.0)
//@end
//@go db.ldbTransparencyStore.PutIndex
//@attr maypanic
pub fn lts_PutIndex(ldb_r: &mut db_ldbTransparencyStore, label: Slice<u8>, index: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures r.is_some() <==> index.nil@, index.nil@ ==> *final(ldb_r) == *old(ldb_r), !index.nil@ ==> wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Index(label@), Some(index@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ldb.conn.conn == ldb_r.conn.conn); }
//@end
//@go db.ldbTransparencyStore.DeleteIndex
//@attr maypanic
pub fn lts_DeleteIndex(ldb_r: &mut db_ldbTransparencyStore, label: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Index(label@), None), r.is_none()
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ldb.conn.conn == ldb_r.conn.conn); }
//@end
//@go db.ldbTransparencyStore.PutVersion
//@attr maypanic
pub fn lts_PutVersion(ldb_r: &mut db_ldbTransparencyStore, label: Slice<u8>, ver: u32, data: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures r.is_some() <==> data.nil@, data.nil@ ==> *final(ldb_r) == *old(ldb_r), !data.nil@ ==> wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Version(label@, ver), Some(data@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ldb.conn.conn == ldb_r.conn.conn); }
//@end
//@go db.ldbTransparencyStore.DeleteVersion
//@attr maypanic
pub fn lts_DeleteVersion(ldb_r: &mut db_ldbTransparencyStore, label: Slice<u8>, ver: u32) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Version(label@, ver), None), r.is_none()
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ldb.conn.conn == ldb_r.conn.conn); }
//@end
//@go db.ldbTransparencyStore.Put
//@attr maypanic
pub fn lts_Put(ldb_r: &mut db_ldbTransparencyStore, key: u64, data: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures r.is_some() <==> data.nil@, data.nil@ ==> *final(ldb_r) == *old(ldb_r), !data.nil@ ==> wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Entry(key), Some(data@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ldb.conn.conn == ldb_r.conn.conn); }
//@end
//@go db.ldbTransparencyStore.Delete
//@attr maypanic
pub fn lts_Delete(ldb_r: &mut db_ldbTransparencyStore, key: u64) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures wrote(old(ldb_r).conn, final(ldb_r).conn, Key::Entry(key), None), r.is_none()
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ldb.conn.conn == ldb_r.conn.conn); }
//@end
//@go db.ldbLogStore.Put
//@attr maypanic
pub fn lls_Put(ls_r: &mut db_ldbLogStore, key: u64, value: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ls_r).conn.batch.nil@
    ensures r.is_some() <==> value.nil@, value.nil@ ==> *final(ls_r) == *old(ls_r), !value.nil@ ==> wrote(old(ls_r).conn, final(ls_r).conn, Key::Log(key), Some(value@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ls.conn.conn == ls_r.conn.conn); }
//@end
//@go db.ldbLogStore.Delete
//@attr maypanic
pub fn lls_Delete(ls_r: &mut db_ldbLogStore, key: u64) -> (r: Option<GoErr>)
    requires !old(ls_r).conn.batch.nil@
    ensures wrote(old(ls_r).conn, final(ls_r).conn, Key::Log(key), None), r.is_none()
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ls.conn.conn == ls_r.conn.conn); }
//@end
//@go db.ldbPrefixStore.Put
//@attr maypanic
pub fn lps_Put(ps_r: &mut db_ldbPrefixStore, key: Str, value: Slice<u8>) -> (r: Option<GoErr>)
    requires !old(ps_r).conn.batch.nil@
    ensures r.is_some() <==> value.nil@, value.nil@ ==> *final(ps_r) == *old(ps_r), !value.nil@ ==> wrote(old(ps_r).conn, final(ps_r).conn, Key::Prefix(key.s@), Some(value@))
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ps.conn.conn == ps_r.conn.conn); }
//@end
//@go db.ldbPrefixStore.Delete
//@attr maypanic
pub fn lps_Delete(ps_r: &mut db_ldbPrefixStore, key: Str) -> (r: Option<GoErr>)
    requires !old(ps_r).conn.batch.nil@
    ensures wrote(old(ps_r).conn, final(ps_r).conn, Key::Prefix(key.s@), None), r.is_none()
//@hint entry
    proof { keys_distinct(); }
//@hint after call db_connPut 1
    proof { assert(ps.conn.conn == ps_r.conn.conn); }
//@end
//@go db.ldbTransparencyStore.BatchGet
pub fn lts_BatchGet(ldb: db_ldbTransparencyStore, keys: Slice<u64>) -> (r: (GoMap<u64, Slice<u8>>, Option<GoErr>))
    ensures r.1.is_none() ==> !r.0.nil@ && (forall|k: u64| #[trigger] r.0@.dom().contains(k) ==> keys@.contains(k) && sees(ldb.conn, Key::Entry(k)) == Some(r.0@[k]@) && !r.0@[k].nil@)
        && (forall|i: int| 0 <= i < keys@.len() && sees(ldb.conn, ({ let k = #[trigger] keys@[i]; Key::Entry(k) })).is_some() ==> r.0@.dom().contains(keys@[i]))
//@loop 1
    invariant SEQ == keys, !out.nil@, forall|k: u64| #[trigger] out@.dom().contains(k) ==> keys@.contains(k) && sees(ldb.conn, Key::Entry(k)) == Some(out@[k]@) && !out@[k].nil@,
        forall|i: int| 0 <= i < IDX && sees(ldb.conn, ({ let k = #[trigger] keys@[i]; Key::Entry(k) })).is_some() ==> out@.dom().contains(keys@[i])
    decreases SEQ@.len() - IDX
//@end
//@go db.ldbLogStore.BatchGet
pub fn lls_BatchGet(ls: db_ldbLogStore, keys: Slice<u64>) -> (r: (GoMap<u64, Slice<u8>>, Option<GoErr>))
    ensures r.1.is_none() ==> !r.0.nil@ && (forall|k: u64| #[trigger] r.0@.dom().contains(k) ==> keys@.contains(k) && sees(ls.conn, Key::Log(k)) == Some(r.0@[k]@) && !r.0@[k].nil@)
        && (forall|i: int| 0 <= i < keys@.len() && sees(ls.conn, ({ let k = #[trigger] keys@[i]; Key::Log(k) })).is_some() ==> r.0@.dom().contains(keys@[i]))
//@loop 1
    invariant SEQ == keys, !out.nil@, forall|k: u64| #[trigger] out@.dom().contains(k) ==> keys@.contains(k) && sees(ls.conn, Key::Log(k)) == Some(out@[k]@) && !out@[k].nil@,
        forall|i: int| 0 <= i < IDX && sees(ls.conn, ({ let k = #[trigger] keys@[i]; Key::Log(k) })).is_some() ==> out@.dom().contains(keys@[i])
    decreases SEQ@.len() - IDX
//@end
//@go db.ldbPrefixStore.BatchGet
pub fn lps_BatchGet(ps: db_ldbPrefixStore, keys: Slice<Str>) -> (r: (GoMap<Str, Slice<u8>>, Option<GoErr>))
    ensures r.1.is_none() ==> !r.0.nil@ && (forall|k: Str| #[trigger] r.0@.dom().contains(k) ==> keys@.contains(k) && sees(ps.conn, Key::Prefix(k.s@)) == Some(r.0@[k]@) && !r.0@[k].nil@)
        && (forall|i: int| 0 <= i < keys@.len() && sees(ps.conn, ({ let k = #[trigger] keys@[i]; Key::Prefix(k.s@) })).is_some() ==> r.0@.dom().contains(keys@[i]))
//@loop 1
    invariant SEQ == keys, !out.nil@, forall|k: Str| #[trigger] out@.dom().contains(k) ==> keys@.contains(k) && sees(ps.conn, Key::Prefix(k.s@)) == Some(out@[k]@) && !out@[k].nil@,
        forall|i: int| 0 <= i < IDX && sees(ps.conn, ({ let k = #[trigger] keys@[i]; Key::Prefix(k.s@) })).is_some() ==> out@.dom().contains(keys@[i])
    decreases SEQ@.len() - IDX
//@end
//@go db.ldbTransparencyStore.Commit
//@attr maypanic
pub fn lts_Commit(ldb_r: &mut db_ldbTransparencyStore) -> (r: Option<GoErr>)
    requires !old(ldb_r).conn.batch.nil@
    ensures !old(ldb_r).conn.readonly,
        // after a crash the database is what it was, or all that the transaction saw
        final(ldb_r).conn.conn == old(ldb_r).conn.conn && r.is_some()
        || final(ldb_r).conn.conn.hist@ == old(ldb_r).conn.conn.hist@.push(final(ldb_r).conn.conn.d@) && forall|k: Bytes| #[trigger] dbget(final(ldb_r).conn.conn.d@, k) == vis(old(ldb_r).conn, k),
        forall|k: Bytes| #[trigger] vis(final(ldb_r).conn, k) == vis(old(ldb_r).conn, k),
//@end
// C19 put together: what one transaction wrote and committed, the next reads.
pub proof fn prop_commit_read(o: db_ldbConn, n: db_ldbConn, d: LevelDB, k: Key)
    requires forall|k: Bytes| #[trigger] dbget(d.d@, k) == vis(o, k), n.conn == d, n.batch@ == Map::<Str, Slice<u8>>::empty()
    ensures sees(n, k) == sees(o, k)
{ assert(dbget(d.d@, enc(k)) == vis(o, enc(k))); }
//@nonnil db.TransparencyStore
//@go db.ldbTransparencyStore.LogStore
pub fn lts_LogStore(ldb: db_ldbTransparencyStore) -> (r: AnyLog) ensures r.s.conn == ldb.conn
//@end
//@go db.ldbTransparencyStore.PrefixStore
pub fn lts_PrefixStore(ldb: db_ldbTransparencyStore) -> (r: AnyPrefix) ensures r.s.conn == ldb.conn
//@end
//@typemap db.LogStore AnyLog AnyLog::any()
//@typemap db.PrefixStore AnyPrefix AnyPrefix::any()
pub struct AnyLog { pub s: db_ldbLogStore }
impl Clone for AnyLog { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AnyLog {}
#[verifier::external_body]
pub fn AnyLog_of_db_ldbLogStore(s: db_ldbLogStore) -> (r: AnyLog) ensures r.s == s { unimplemented!() }
pub struct AnyPrefix { pub s: db_ldbPrefixStore }
impl Clone for AnyPrefix { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AnyPrefix {}
#[verifier::external_body]
pub fn AnyPrefix_of_db_ldbPrefixStore(s: db_ldbPrefixStore) -> (r: AnyPrefix) ensures r.s == s { unimplemented!() }
