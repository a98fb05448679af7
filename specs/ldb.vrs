//@use fmtkeys.vrs
// ---- C19: the LevelDB-backed transparency store
//@nonnil db.ldbConn db.ldbTransparencyStore db.ldbLogStore db.ldbPrefixStore github.com/syndtr/goleveldb/leveldb.DB github.com/syndtr/goleveldb/leveldb.Batch
//@typemap github.com/syndtr/goleveldb/leveldb.DB LevelDB LevelDB::any()
//@typemap github.com/syndtr/goleveldb/leveldb.Batch Batch Batch::new()
//@typemap github.com/syndtr/goleveldb/leveldb/opt.ReadOptions Opt Opt{}
//@typemap github.com/syndtr/goleveldb/leveldb/opt.WriteOptions Opt Opt{}
//@typemap db.TransparencyStore AnyStore AnyStore::any()
//@global github.com/syndtr/goleveldb/leveldb.ErrNotFound err_const(Ghost(7int))
// Trusted: what is durable in the database. hist is every state it has been
// in, so a crash leaves one of them.
pub struct LevelDB { pub d: Ghost<Map<Bytes, Bytes>>, pub hist: Ghost<Seq<Map<Bytes, Bytes>>> }
impl Clone for LevelDB { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for LevelDB {}
impl LevelDB { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
pub struct Batch { pub ops: Ghost<Seq<(Bytes, Option<Bytes>)>> }
impl Clone for Batch { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Batch {}
impl Batch { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.ops@.len() == 0 { unimplemented!() } }
pub struct Opt {}
impl Clone for Opt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Opt {}
pub struct AnyStore { pub s: db_ldbTransparencyStore }
impl Clone for AnyStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for AnyStore {}
impl AnyStore { #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn AnyStore_of_db_ldbTransparencyStore(s: db_ldbTransparencyStore) -> (r: AnyStore) ensures r.s == s { unimplemented!() }

pub open spec fn apply_op(m: Map<Bytes, Bytes>, o: (Bytes, Option<Bytes>)) -> Map<Bytes, Bytes> { match o.1 { Some(v) => m.insert(o.0, v), None => m.remove(o.0) } }
pub open spec fn apply(m: Map<Bytes, Bytes>, ops: Seq<(Bytes, Option<Bytes>)>) -> Map<Bytes, Bytes> decreases ops.len() { if ops.len() == 0 { m } else { apply_op(apply(m, ops.drop_last()), ops.last()) } }

//@ext github.com/syndtr/goleveldb/leveldb.Batch.Put
pub fn batch_Put(b: &mut Batch, k: Slice<u8>, v: Slice<u8>) ensures final(b).ops@ == old(b).ops@.push((k@, Some(v@)))
//@end
//@ext github.com/syndtr/goleveldb/leveldb.Batch.Delete
pub fn batch_Delete(b: &mut Batch, k: Slice<u8>) ensures final(b).ops@ == old(b).ops@.push((k@, None))
//@end
// Trusted: LevelDB returns what was last written, and a batch is written
// atomically, as one step.
//@ext github.com/syndtr/goleveldb/leveldb.DB.Write
pub fn ldb_Write(c: &mut LevelDB, b: Batch, o: Option<Opt>) -> (r: Option<GoErr>)
    ensures final(c).d@ == old(c).d@ && final(c).hist@ == old(c).hist@ && r.is_some()
        || final(c).d@ == apply(old(c).d@, b.ops@) && final(c).hist@ == old(c).hist@.push(final(c).d@)
//@end
//@ext github.com/syndtr/goleveldb/leveldb.DB.Get
pub fn ldb_Get(c: LevelDB, k: Slice<u8>, o: Option<Opt>) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() ==> c.d@.dom().contains(k@) && r.0@ == c.d@[k@] && !r.0.nil@,
        r.1.is_some() && r.1.unwrap().code@ == 7 ==> !c.d@.dom().contains(k@) && r.0.nil@,
//@end

pub open spec fn str_of_seq(k: Bytes) -> Str { Str { s: Ghost(k) } }
// what a transaction sees under a key
pub open spec fn vis(c: db_ldbConn, k: Bytes) -> Option<Bytes> {
    if c.batch@.dom().contains(str_of_seq(k)) { if c.batch@[str_of_seq(k)].nil@ { None } else { Some(c.batch@[str_of_seq(k)]@) } }
    else if c.conn.d@.dom().contains(k) { Some(c.conn.d@[k]) } else { None }
}
pub open spec fn dbget(m: Map<Bytes, Bytes>, k: Bytes) -> Option<Bytes> { if m.dom().contains(k) { Some(m[k]) } else { None } }

pub proof fn lemma_apply_push(m: Map<Bytes, Bytes>, ops: Seq<(Bytes, Option<Bytes>)>, o: (Bytes, Option<Bytes>)) ensures apply(m, ops.push(o)) == apply_op(apply(m, ops), o)
{ assert(ops.push(o).drop_last() =~= ops); }
pub proof fn lemma_push_contains(s: Seq<Str>, x: Str, k: Str) ensures s.push(x).contains(k) <==> s.contains(k) || x == k
{ if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(x)[i] == k); } if x == k { assert(s.push(x)[s.len() as int] == k); } }

//@go db.dup
pub fn db_dup(b: Slice<u8>) -> (r: Slice<u8>) ensures r@ == b@, r.nil == b.nil
//@end
//@go db.newLDBConn
pub fn db_newLDBConn(conn: LevelDB, readonly: bool) -> (r: db_ldbConn) ensures r.conn == conn, r.readonly == readonly, r.batch@ == Map::<Str, Slice<u8>>::empty(), !r.batch.nil@
//@end
//@go db.ldbConn.Get
pub fn db_connGet(c: db_ldbConn, key: Str) -> (r: (Slice<u8>, Option<GoErr>))
    ensures r.1.is_none() ==> vis(c, key.s@) == Some(r.0@) && !r.0.nil@,
        r.1.is_some() && r.1.unwrap().code@ == 7 ==> vis(c, key.s@).is_none() && r.0.nil@,
//@end
//@go db.ldbConn.Put
//@attr maypanic
pub fn db_connPut(c_r: &mut db_ldbConn, key: Str, value: Slice<u8>)
    requires !old(c_r).batch.nil@
    ensures !old(c_r).readonly, final(c_r).conn == old(c_r).conn, !final(c_r).readonly, !final(c_r).batch.nil@,
        vis(*final(c_r), key.s@) == (if value.nil@ { None } else { Some(value@) }),
        forall|k: Bytes| k != key.s@ ==> #[trigger] vis(*final(c_r), k) == vis(*old(c_r), k),
//@end
//@go db.ldbConn.Commit
//@attr maypanic
pub fn db_connCommit(c_r: &mut db_ldbConn) -> (r: Option<GoErr>)
    requires !old(c_r).batch.nil@
    ensures !old(c_r).readonly, !final(c_r).readonly, !final(c_r).batch.nil@,
        // the durable state changes in one step, from what it was to what the transaction sees
        final(c_r).conn == old(c_r).conn && r.is_some()
        || final(c_r).conn.hist@ == old(c_r).conn.hist@.push(final(c_r).conn.d@) && forall|k: Bytes| #[trigger] dbget(final(c_r).conn.d@, k) == vis(*old(c_r), k),
        forall|k: Bytes| #[trigger] vis(*final(c_r), k) == vis(*old(c_r), k),
        r.is_none() ==> final(c_r).batch@ == Map::<Str, Slice<u8>>::empty(),
//@loop 1
    invariant !c.readonly, c == *old(c_r), MAP == c.batch, SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> MAP@.dom().contains(#[trigger] SEQ@[i]),
        forall|k: Bytes| #[trigger] dbget(apply(c.conn.d@, b.ops@), k) == (if SEQ@.subrange(0, IDX as int).contains(str_of_seq(k)) { vis(c, k) } else { dbget(c.conn.d@, k) }),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost ops0 = b.ops@;
    proof { assert(key == str_of_seq(key.s@)); assert(SEQ1@.subrange(0, IDX1 as int) =~= SEQ1@.subrange(0, IDX1 - 1).push(key)); }
//@hint loop 1 bottom
    proof { let o = (key.s@, if value.nil@ { None::<Bytes> } else { Some(value@) }); assert(b.ops@ == ops0.push(o)); lemma_apply_push(c.conn.d@, ops0, o);
        assert forall|k: Bytes| #[trigger] dbget(apply(c.conn.d@, b.ops@), k) == (if SEQ1@.subrange(0, IDX1 as int).contains(str_of_seq(k)) { vis(c, k) } else { dbget(c.conn.d@, k) }) by {
            lemma_push_contains(SEQ1@.subrange(0, IDX1 - 1), key, str_of_seq(k));
            if k == key.s@ { assert(str_of_seq(k) == key); } else { assert(str_of_seq(k).s@ == k); assert(dbget(apply(c.conn.d@, ops0), k) == dbget(apply(c.conn.d@, b.ops@), k)); }
        } }
//@hint entry
    let ghost c0 = c;
//@hint after loop 1
    proof { assert(SEQ1@.subrange(0, SEQ1@.len() as int) =~= SEQ1@);
        assert forall|k: Bytes| #[trigger] dbget(apply(c.conn.d@, b.ops@), k) == vis(c, k) by {
        let t = str_of_seq(k);
        assert(SEQ1@.contains(t) <==> c.batch@.dom().contains(t));
    } }
//@hint after call ldb_Write 1
    proof { assert forall|k: Bytes| #[trigger] vis(c, k) == vis(c0, k) by { assert(dbget(apply(c0.conn.d@, b.ops@), k) == vis(c0, k)); } }
//@hint return 2
    proof { assert forall|k: Bytes| #[trigger] vis(c, k) == vis(c0, k) by { assert(dbget(apply(c0.conn.d@, b.ops@), k) == vis(c0, k)); } }
//@end

//@go db.ldbTransparencyStore.Clone
pub fn db_Clone(ldb: db_ldbTransparencyStore) -> (r: AnyStore) ensures r.s.conn.readonly, r.s.conn.conn == ldb.conn.conn, !r.s.conn.batch.nil@, forall|k: Bytes| #[trigger] vis(r.s.conn, k) == dbget(ldb.conn.conn.d@, k)
//@end
