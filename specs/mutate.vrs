//@import server.vrs dist.vrs
//@use fmtkeys.vrs
//@nonnil tree/transparency.labelMutation
// ---- C18: mutations, grouped by label and carried out
pub open spec fn key(l: Seq<u8>) -> Str { Str { s: Ghost(hex(l)) } }
pub proof fn key_inj() ensures forall|a: Seq<u8>, b: Seq<u8>| #![trigger key(a), key(b)] key(a) == key(b) ==> a == b
{ assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger key(a), key(b)] key(a) == key(b) implies a == b by { assert(key(a).s@ == hex(a)); assert(key(b).s@ == hex(b)); } }
// the values to add to a label, in order
pub open spec fn adds_of(add: Seq<tr_LabelValue>, k: int, l: Seq<u8>) -> Seq<tr_LabelValue> decreases k {
    if k <= 0 { Seq::empty() } else { let r = adds_of(add, k - 1, l); if add[k - 1].Label@ == l { r.push(add[k - 1]) } else { r } }
}
pub proof fn adds_label(add: Seq<tr_LabelValue>, k: int, l: Seq<u8>) ensures forall|i: int| 0 <= i < adds_of(add, k, l).len() ==> (#[trigger] adds_of(add, k, l)[i]).Label@ == l, adds_of(add, k, l).len() <= (if k > 0 { k } else { 0 }) decreases k
{ if k > 0 { adds_label(add, k - 1, l); } }
pub open spec fn named_by(remove: Seq<Slice<u8>>, k: int, l: Seq<u8>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] remove[i])@ == l }
pub open spec fn affected(add: Seq<tr_LabelValue>, ka: int, remove: Seq<Slice<u8>>, kr: int, l: Seq<u8>) -> bool { adds_of(add, ka, l).len() > 0 || named_by(remove, kr, l) }
pub open spec fn is_group(t: tr_Tree, add: Seq<tr_LabelValue>, remove: Seq<Slice<u8>>, m: tr_labelMutation) -> bool {
    m.add@ == adds_of(add, add.len() as int, m.label@) && m.remove == named_by(remove, remove.len() as int, m.label@) && decodes(m.index@, index_of(t.tx, m.label@))
}
pub open spec fn labels_known(m: Map<Str, Slice<u8>>, add: Seq<tr_LabelValue>, ka: int, remove: Seq<Slice<u8>>, kr: int) -> bool {
    &&& forall|l: Seq<u8>| #[trigger] m.dom().contains(key(l)) <==> affected(add, ka, remove, kr, l)
    &&& forall|s: Str| #[trigger] m.dom().contains(s) ==> s == key(m[s]@)
}
pub open spec fn has_group(g: Seq<tr_labelMutation>, l: Seq<u8>) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).label@ == l }
//@go tree/transparency.Tree.groupByLabel
pub fn tr_groupByLabel(t: tr_Tree, add: Slice<tr_LabelValue>, remove: Slice<Slice<u8>>) -> (r: (Slice<tr_labelMutation>, Option<GoErr>))
    ensures r.1.is_none() ==> {
        &&& forall|i: int| 0 <= i < r.0@.len() ==> is_group(t, add@, remove@, #[trigger] r.0@[i])
        &&& forall|i: int, j: int| 0 <= i < j < r.0@.len() ==> (#[trigger] r.0@[i]).label@ != (#[trigger] r.0@[j]).label@
        &&& forall|l: Seq<u8>| affected(add@, add@.len() as int, remove@, remove@.len() as int, l) <==> #[trigger] has_group(r.0@, l)
    }
//@hint entry
    let ghost mut keys0 = Seq::<Str>::empty();
    proof { key_inj(); }
//@loop 1
    invariant SEQ == add, IDX <= SEQ@.len(), !allLabels.nil@, !groupedAdds.nil@, labels_known(allLabels@, add@, IDX as int, remove@, 0),
        forall|l: Seq<u8>| #[trigger] groupedAdds@.dom().contains(key(l)) <==> adds_of(add@, IDX as int, l).len() > 0,
        forall|l: Seq<u8>| #[trigger] groupedAdds@.dom().contains(key(l)) ==> groupedAdds@[key(l)]@ == adds_of(add@, IDX as int, l),
//@hint loop 1 top
    proof { key_inj(); }
    let ghost g0 = groupedAdds@; let ghost m0 = allLabels@;
//@hint loop 1 bottom
    proof {
        let k = IDX - 1; let pl = pair.Label@; assert(labelStr == key(pl));
        assert forall|l: Seq<u8>| #[trigger] groupedAdds@.dom().contains(key(l)) <==> adds_of(add@, IDX as int, l).len() > 0 by { assert(g0.dom().contains(key(l)) <==> adds_of(add@, k, l).len() > 0); if l == pl {} else { assert(key(l) != key(pl)); } }
        assert forall|l: Seq<u8>| #[trigger] groupedAdds@.dom().contains(key(l)) implies groupedAdds@[key(l)]@ == adds_of(add@, IDX as int, l) by {
            assert(g0.dom().contains(key(l)) <==> adds_of(add@, k, l).len() > 0);
            if l == pl { if !g0.dom().contains(key(l)) { assert(adds_of(add@, k, l) =~= Seq::<tr_LabelValue>::empty()); } } else { assert(key(l) != key(pl)); } }
        assert forall|l: Seq<u8>| #[trigger] allLabels@.dom().contains(key(l)) <==> affected(add@, IDX as int, remove@, 0, l) by { assert(m0.dom().contains(key(l)) <==> affected(add@, k, remove@, 0, l)); if l == pl {} else { assert(key(l) != key(pl)); } }
    }
//@loop 2
    invariant SEQ == remove, IDX <= SEQ@.len(), !allLabels.nil@, !groupedRemoves.nil@, labels_known(allLabels@, add@, add@.len() as int, remove@, IDX as int),
        forall|l: Seq<u8>| #[trigger] groupedRemoves@.dom().contains(key(l)) <==> named_by(remove@, IDX as int, l),
//@hint loop 2 top
    proof { key_inj(); }
    let ghost g0 = groupedRemoves@; let ghost m0 = allLabels@;
//@hint loop 2 bottom
    proof {
        let k = IDX - 1; let pl = label@; assert(labelStr == key(pl)); assert(remove@[k] == label);
        assert forall|l: Seq<u8>| named_by(remove@, k + 1, l) <==> #[trigger] named_by(remove@, k, l) || l == pl by {
            if named_by(remove@, k, l) { let i = choose|i: int| 0 <= i < k && (#[trigger] remove@[i])@ == l; assert(0 <= i < k + 1 && remove@[i]@ == l); }
            if named_by(remove@, k + 1, l) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] remove@[i])@ == l; assert(i == k || named_by(remove@, k, l)); } }
        assert forall|l: Seq<u8>| #[trigger] groupedRemoves@.dom().contains(key(l)) <==> named_by(remove@, IDX as int, l) by { assert(g0.dom().contains(key(l)) <==> named_by(remove@, k, l)); if l == pl {} else { assert(key(l) != key(pl)); } }
        assert forall|l: Seq<u8>| #[trigger] allLabels@.dom().contains(key(l)) <==> affected(add@, add@.len() as int, remove@, IDX as int, l) by { assert(m0.dom().contains(key(l)) <==> affected(add@, add@.len() as int, remove@, k, l)); assert(named_by(remove@, k + 1, l) <==> named_by(remove@, k, l) || l == pl); if l == pl {} else { assert(key(l) != key(pl)); } }
    }
//@loop 3
    invariant MAP == allLabels, SEQ@.no_duplicates(), IDX <= SEQ@.len(), labelStrs@ =~= SEQ@.subrange(0, IDX as int), labels@.len() == IDX, forall|i: int| 0 <= i < IDX ==> labels@[i] == allLabels@[#[trigger] SEQ@[i]],
        forall|s: Str| #[trigger] allLabels@.dom().contains(s) ==> SEQ@.contains(s), forall|i: int| 0 <= i < SEQ@.len() ==> allLabels@.dom().contains(#[trigger] SEQ@[i]),
    decreases SEQ@.len() - IDX
//@hint after loop 3
    proof { keys0 = SEQ3@; assert(labelStrs@ =~= keys0); }
//@hint before loop 4
    proof { assert forall|i: int| 0 <= i < keys0.len() implies #[trigger] keys0[i] == key(labels@[i]@) by { assert(allLabels@.dom().contains(keys0[i])); } }
//@loop 4
    invariant SEQ == labelStrs, SEQ@ == keys0, IDX <= SEQ@.len(), out@.len() == SEQ@.len(), labels@.len() == SEQ@.len(), indices@.len() == SEQ@.len(),
        forall|i: int| 0 <= i < labels@.len() ==> decodes((#[trigger] indices@[i])@, index_of(t.tx, labels@[i]@)),
        forall|i: int| 0 <= i < keys0.len() ==> #[trigger] keys0[i] == key(labels@[i]@),
        forall|l: Seq<u8>| #[trigger] groupedRemoves@.dom().contains(key(l)) <==> named_by(remove@, remove@.len() as int, l),
        forall|l: Seq<u8>| #[trigger] groupedAdds@.dom().contains(key(l)) <==> adds_of(add@, add@.len() as int, l).len() > 0,
        forall|l: Seq<u8>| #[trigger] groupedAdds@.dom().contains(key(l)) ==> groupedAdds@[key(l)]@ == adds_of(add@, add@.len() as int, l),
        forall|i: int| 0 <= i < IDX ==> is_group(t, add@, remove@, #[trigger] out@[i]) && out@[i].label == labels@[i],
//@hint loop 4 top
    let ghost o0 = out@;
//@hint loop 4 bottom
    proof { let k = IDX - 1; let l = labels@[k]@; assert(labelStr == key(l)); assert(out@[k].label@ == l); assert(groupedAdds@.dom().contains(key(l)) <==> adds_of(add@, add@.len() as int, l).len() > 0); assert(groupedRemoves@.dom().contains(key(l)) <==> named_by(remove@, remove@.len() as int, l));
        if !groupedAdds@.dom().contains(key(l)) { assert(out@[k].add@ =~= adds_of(add@, add@.len() as int, l)); }
        assert(is_group(t, add@, remove@, out@[k]));
        assert forall|i: int| 0 <= i < IDX implies is_group(t, add@, remove@, #[trigger] out@[i]) && out@[i].label == labels@[i] by { if i < k { assert(out@[i] == o0[i]); } } }
//@hint after loop 4
    proof {
        key_inj();
        assert forall|i: int, j: int| 0 <= i < j < out@.len() implies (#[trigger] out@[i]).label@ != (#[trigger] out@[j]).label@ by { assert(keys0[i] != keys0[j]); }
        assert forall|l: Seq<u8>| affected(add@, add@.len() as int, remove@, remove@.len() as int, l) <==> #[trigger] has_group(out@, l) by {
            if allLabels@.dom().contains(key(l)) { let i = choose|i: int| 0 <= i < keys0.len() && keys0[i] == key(l); assert(key(labels@[i]@) == key(l)); assert(out@[i].label@ == l); }
            if has_group(out@, l) { let i = choose|i: int| 0 <= i < out@.len() && (#[trigger] out@[i]).label@ == l; assert(allLabels@.dom().contains(keys0[i])); assert(keys0[i] == key(l)); }
        }
    }
//@end
// ---- the effect of the writes
pub open spec fn ver_of(d: DB, l: Seq<u8>, v: u32) -> Option<Seq<u8>> { if d.vers@.dom().contains((l, v)) { Some(d.vers@[(l, v)]) } else { None } }
pub open spec fn same_label(a: DB, b: DB, l: Seq<u8>) -> bool { index_of(a, l) == index_of(b, l) && forall|v: u32| #[trigger] ver_of(b, l, v) == ver_of(a, l, v) }
pub open spec fn apply(d: DB, a: Act) -> DB {
    match a {
        Act::PutVersion(l, v, raw) => DB { vers: Ghost(d.vers@.insert((l, v), raw)), ..d },
        Act::DeleteVersion(l, v) => DB { vers: Ghost(d.vers@.remove((l, v))), ..d },
        Act::PutIndex(l, s) => DB { index: Ghost(d.index@.insert(l, enc_index(s))), ..d },
        Act::DeleteIndex(l) => DB { index: Ghost(d.index@.remove(l)), ..d },
    }
}
pub open spec fn applies(d: DB, w: Seq<Later>, k: int) -> DB decreases k { if k <= 0 { d } else { apply(applies(d, w, k - 1), w[k - 1].a@) } }
// Trusted: calling a function value makes the call it was made of.
//@ext func() error
pub fn later_run(t_r: &mut tr_Tree, w: Later) -> (r: Option<GoErr>)
    ensures r.is_some() ==> *final(t_r) == *old(t_r), r.is_none() ==> *final(t_r) == (tr_Tree { tx: apply(old(t_r).tx, w.a@), ..*old(t_r) })
//@end
pub proof fn applies_prefix(d: DB, a: Seq<Later>, b: Seq<Later>, k: int) requires k <= a.len() ensures applies(d, a + b, k) == applies(d, a, k) decreases k
{ if k > 0 { applies_prefix(d, a, b, k - 1); assert((a + b)[k - 1] == a[k - 1]); } }
pub proof fn applies_add(d: DB, a: Seq<Later>, b: Seq<Later>, k: int) requires 0 <= k <= b.len() ensures applies(d, a + b, a.len() + k) == applies(applies(d, a, a.len() as int), b, k) decreases k
{ if k > 0 { applies_add(d, a, b, k - 1); assert((a + b)[a.len() + k - 1] == b[k - 1]); } else { applies_prefix(d, a, b, a.len() as int); } }
pub open spec fn raw_of(a: Act) -> Seq<u8> { match a { Act::PutVersion(_, _, raw) => raw, _ => Seq::empty() } }
pub open spec fn own_adds(m: tr_labelMutation) -> bool { forall|i: int| 0 <= i < m.add@.len() ==> (#[trigger] m.add@[i]).Label@ == m.label@ }
// after k removals
pub open spec fn st_rem(d: DB, e: DB, l: Seq<u8>, k: int) -> bool {
    &&& index_of(e, l).len() == 0 && (forall|v: u32| #[trigger] ver_of(e, l, v) == (if v < k { None } else { ver_of(d, l, v) }))
    &&& forall|x: Seq<u8>| x != l ==> #[trigger] same_label(d, e, x)
}
pub proof fn lemma_rem(t: tr_Tree, m: tr_labelMutation, w: Seq<Later>, rem: Seq<Slice<u8>>, d: DB, k: int)
    requires removed(m), is_removal(t, m, m.index@.len() as int, w, rem), 0 <= k <= m.index@.len(), m.index@.len() < 0x1_0000_0000
    ensures st_rem(d, applies(d, w, k + 1), m.label@, k) decreases k
{
    let l = m.label@; let e = applies(d, w, k + 1);
    if k == 0 { assert(applies(d, w, 0) == d); assert(e == apply(d, w[0].a@)); assert forall|x: Seq<u8>| x != l implies #[trigger] same_label(d, e, x) by { assert forall|v: u32| #[trigger] ver_of(e, x, v) == ver_of(d, x, v) by {} } }
    else {
        lemma_rem(t, m, w, rem, d, k - 1); let p = applies(d, w, k); assert(w[(k - 1) + 1].a@ == Act::DeleteVersion(l, (k - 1) as u32)); assert(e == apply(p, w[k].a@));
        assert forall|v: u32| #[trigger] ver_of(e, l, v) == (if v < k { None } else { ver_of(d, l, v) }) by { assert(ver_of(p, l, v) == (if v < k - 1 { None } else { ver_of(d, l, v) })); }
        assert forall|x: Seq<u8>| x != l implies #[trigger] same_label(d, e, x) by { assert(same_label(d, p, x)); assert forall|v: u32| #[trigger] ver_of(e, x, v) == ver_of(d, x, v) by { assert(ver_of(p, x, v) == ver_of(d, x, v)); } }
    }
}
// what version v is after k additions
pub open spec fn ver_then(m: tr_labelMutation, w: Seq<Later>, d: DB, k: int, v: u32) -> Option<Seq<u8>> {
    let b = base_index(m).len() as int;
    if b <= v < b + k { Some(raw_of(w[rem_acts(m) + v - b].a@)) } else if removed(m) && v < m.index@.len() { None } else { ver_of(d, m.label@, v) }
}
pub open spec fn st_add(d: DB, e: DB, m: tr_labelMutation, w: Seq<Later>, k: int) -> bool {
    let l = m.label@;
    &&& (removed(m) ==> index_of(e, l).len() == 0) && (!removed(m) ==> index_of(e, l) == index_of(d, l))
    &&& forall|v: u32| #[trigger] ver_of(e, l, v) == ver_then(m, w, d, k, v)
    &&& forall|x: Seq<u8>| x != l ==> #[trigger] same_label(d, e, x)
}
pub proof fn lemma_add(t: tr_Tree, m: tr_labelMutation, w: Seq<Later>, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, d: DB, k: int)
    requires removed(m) ==> is_removal(t, m, m.index@.len() as int, w, rem), is_addition(t, m, m.add@.len() as int, w, add), own_adds(m), 0 <= k <= m.add@.len(), m.index@.len() + m.add@.len() < 0x1_0000_0000
    ensures st_add(d, applies(d, w, rem_acts(m) + k), m, w, k) decreases k
{
    let l = m.label@; let c = rem_acts(m) as int; let e = applies(d, w, c + k); let b = base_index(m).len() as int;
    if k == 0 {
        if removed(m) { lemma_rem(t, m, w, rem, d, m.index@.len() as int); } else { assert(e == d); }
        assert forall|v: u32| #[trigger] ver_of(e, l, v) == ver_then(m, w, d, k, v) by {}
        assert forall|x: Seq<u8>| x != l implies #[trigger] same_label(d, e, x) by {}
    } else {
        lemma_add(t, m, w, add, rem, d, k - 1); let p = applies(d, w, c + k - 1); let a = w[c + k - 1].a@; let vk = (b + k - 1) as u32;
        assert(is_version(t, m.add@[k - 1], vk, w[c + (k - 1)].a@, add[k - 1])); assert(e == apply(p, a)); assert(a is PutVersion && m.add@[k - 1].Label@ == l);
        assert(a == Act::PutVersion(l, vk, raw_of(a)));
        assert forall|v: u32| #[trigger] ver_of(e, l, v) == ver_then(m, w, d, k, v) by { assert(ver_of(p, l, v) == ver_then(m, w, d, k - 1, v)); }
        assert forall|x: Seq<u8>| x != l implies #[trigger] same_label(d, e, x) by { assert(same_label(d, p, x)); assert forall|v: u32| #[trigger] ver_of(e, x, v) == ver_of(d, x, v) by { assert(ver_of(p, x, v) == ver_of(d, x, v)); } }
    }
}
// what the mutation did to its label
pub open spec fn put_in(t: tr_Tree, es: Seq<px_Entry>, p: tr_LabelValue, ver: u32, raw: Seq<u8>) -> bool { exists|e: px_Entry| #[trigger] es.contains(e) && is_version(t, p, ver, Act::PutVersion(p.Label@, ver, raw), e) }
pub open spec fn effect(t: tr_Tree, n: u64, m: tr_labelMutation, d: DB, e: DB, es: Seq<px_Entry>) -> bool {
    let l = m.label@; let b = base_index(m).len() as int; let k = m.add@.len() as int;
    &&& index_of(e, l) == (if k > 0 { enc_index(with_new(base_index(m), n, k)) } else if removed(m) { Seq::empty() } else { index_of(d, l) })
    &&& forall|v: u32| b <= v < b + k ==> (#[trigger] ver_of(e, l, v)).is_some() && put_in(t, es, m.add@[v - b], v, ver_of(e, l, v).unwrap())
    &&& forall|v: u32| !(b <= v < b + k) ==> #[trigger] ver_of(e, l, v) == (if removed(m) && v < m.index@.len() { None } else { ver_of(d, l, v) })
}
pub proof fn lemma_label(t: tr_Tree, n: u64, m: tr_labelMutation, w: Seq<Later>, add: Seq<px_Entry>, rem: Seq<Slice<u8>>, d: DB)
    requires label_done(t, n, m, w, add, rem), own_adds(m), m.index@.len() + m.add@.len() < 0x1_0000_0000
    ensures effect(t, n, m, d, applies(d, w, w.len() as int), add), forall|x: Seq<u8>| x != m.label@ ==> #[trigger] same_label(d, applies(d, w, w.len() as int), x)
{
    let l = m.label@; let k = m.add@.len() as int; let c = rem_acts(m) as int; let b = base_index(m).len() as int;
    let p = applies(d, w, c + k); let e = applies(d, w, w.len() as int);
    lemma_add(t, m, w, add, rem, d, k);
    assert(own_adds(m)); if k > 0 { assert(m.add@[0].Label@ == l); assert(e == apply(p, w[c + k].a@)); assert(index_of(e, l) == enc_index(with_new(base_index(m), n, k))); } else { assert(e == p); if removed(m) { assert(index_of(e, l) =~= Seq::<u8>::empty()); } }
    assert forall|v: u32| #[trigger] ver_of(e, l, v) == ver_then(m, w, d, k, v) by { assert(ver_of(p, l, v) == ver_then(m, w, d, k, v)); }
    assert forall|v: u32| b <= v < b + k implies (#[trigger] ver_of(e, l, v)).is_some() && put_in(t, add, m.add@[v - b], v, ver_of(e, l, v).unwrap()) by {
        let i = v - b; assert(is_version(t, m.add@[i], (b + i) as u32, w[c + i].a@, add[i])); assert(add.contains(add[i])); assert(m.add@[i].Label@ == l); assert(w[c + i].a@ == Act::PutVersion(l, v, raw_of(w[c + i].a@))); }
    assert forall|x: Seq<u8>| x != l implies #[trigger] same_label(d, e, x) by { assert(same_label(d, p, x)); assert forall|v: u32| #[trigger] ver_of(e, x, v) == ver_of(d, x, v) by { assert(ver_of(p, x, v) == ver_of(d, x, v)); } }
}
// later mutations of other labels do not change it
pub proof fn effect_keep(t: tr_Tree, n: u64, m: tr_labelMutation, d: DB, e: DB, f: DB, es: Seq<px_Entry>, fs: Seq<px_Entry>)
    requires effect(t, n, m, d, e, es), same_label(e, f, m.label@), forall|x: px_Entry| es.contains(x) ==> #[trigger] fs.contains(x)
    ensures effect(t, n, m, d, f, fs)
{
    let l = m.label@; let b = base_index(m).len() as int; let k = m.add@.len() as int;
    assert forall|v: u32| b <= v < b + k implies (#[trigger] ver_of(f, l, v)).is_some() && put_in(t, fs, m.add@[v - b], v, ver_of(f, l, v).unwrap()) by {
        assert(ver_of(f, l, v) == ver_of(e, l, v)); let raw = ver_of(e, l, v).unwrap(); assert(put_in(t, es, m.add@[v - b], v, raw));
        let p = m.add@[v - b]; let x = choose|x: px_Entry| #[trigger] es.contains(x) && is_version(t, p, v, Act::PutVersion(p.Label@, v, raw), x); assert(fs.contains(x)); }
    assert forall|v: u32| !(b <= v < b + k) implies #[trigger] ver_of(f, l, v) == (if removed(m) && v < m.index@.len() { None } else { ver_of(d, l, v) }) by { assert(ver_of(f, l, v) == ver_of(e, l, v)); }
}
