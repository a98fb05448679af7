//@use buf.vrs
// ---- Wire formats. A format says how abstract values are encoded, which
// values fit, and what a decoder makes of a byte string; roundtrip and
// canonical are proved once for every combinator, so they hold of every
// structure whose code is verified against a format built from them.
pub type B = Seq<u8>;
pub trait Fmt: Sized {
    type V;
    spec fn enc(self, v: Self::V) -> B;
    spec fn fits(self, v: Self::V) -> bool;   // lengths fit their length fields
    spec fn valid(self, v: Self::V) -> bool;  // and match the sizes the decoder is told
    spec fn parse(self, b: B) -> Option<(Self::V, B)>;
    spec fn pos(self) -> bool;                // never encodes to nothing
    proof fn progress(self, b: B) requires self.pos() ensures match self.parse(b) { Some((v, rest)) => rest.len() < b.len(), None => true };
    proof fn roundtrip(self, v: Self::V, rest: B) requires self.valid(v) ensures self.fits(v), self.parse(self.enc(v) + rest) == Some((v, rest));
    // g encodes as self does (it may be told other sizes)
    spec fn like(self, g: Self) -> bool;
    proof fn same(self, g: Self, v: Self::V) requires self.like(g) ensures self.enc(v) == g.enc(v), self.fits(v) == g.fits(v);
    proof fn canonical(self, b: B) ensures match self.parse(b) { Some((v, rest)) => self.valid(v) && b == self.enc(v) + rest, None => true };
}
pub open spec fn take(b: B, n: int) -> B { b.subrange(0, n) }
pub open spec fn rest_of(b: B, n: int) -> B { b.subrange(n, b.len() as int) }
pub open spec fn be(b: B) -> int decreases b.len() { if b.len() == 0 { 0 } else { be(b.drop_last()) * 256 + b.last() } }
pub open spec fn unbe(x: int, n: nat) -> B decreases n { if n == 0 { Seq::empty() } else { unbe(x / 256, (n - 1) as nat).push((x % 256) as u8) } }
pub open spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub proof fn lemma_unbe(x: int, n: nat) requires 0 <= x < pow256(n) ensures unbe(x, n).len() == n, be(unbe(x, n)) == x decreases n
{ if n > 0 { assert(0 <= x / 256 < pow256((n - 1) as nat)); lemma_unbe(x / 256, (n - 1) as nat); assert(unbe(x, n).drop_last() =~= unbe(x / 256, (n - 1) as nat)); } }
pub proof fn lemma_be(b: B) ensures 0 <= be(b) < pow256(b.len()), unbe(be(b), b.len()) == b decreases b.len()
{ if b.len() > 0 { lemma_be(b.drop_last()); assert((be(b.drop_last()) * 256 + b.last()) / 256 == be(b.drop_last())); assert(b.drop_last().push(b.last()) =~= b); } }
// unsigned integers of n bytes, big-endian
pub struct UInt { pub n: nat }
impl Fmt for UInt {
    type V = int;
    open spec fn enc(self, v: int) -> B { unbe(v, self.n) }
    open spec fn pos(self) -> bool { self.n > 0 }
    proof fn progress(self, b: B) { if b.len() >= self.n { let r = rest_of(b, self.n as int); assert(r.len() == b.len() - self.n); assert(self.parse(b) == Some((be(take(b, self.n as int)), r))); } }
    open spec fn fits(self, v: int) -> bool { 0 <= v < pow256(self.n) }
    open spec fn valid(self, v: int) -> bool { 0 <= v < pow256(self.n) }
    open spec fn parse(self, b: B) -> Option<(int, B)> { if b.len() < self.n { None } else { Some((be(take(b, self.n as int)), rest_of(b, self.n as int))) } }
    proof fn roundtrip(self, v: int, rest: B) { lemma_unbe(v, self.n); assert(take(self.enc(v) + rest, self.n as int) =~= self.enc(v)); assert(rest_of(self.enc(v) + rest, self.n as int) =~= rest); }
    open spec fn like(self, g: Self) -> bool { self.n == g.n }
    proof fn same(self, g: Self, v: Self::V) {  }
    proof fn canonical(self, b: B) { if b.len() >= self.n { lemma_be(take(b, self.n as int)); assert(b =~= take(b, self.n as int) + rest_of(b, self.n as int)); } }
}
// byte strings of a fixed length
pub struct Fixed { pub n: int }
impl Fmt for Fixed {
    type V = B;
    open spec fn enc(self, v: B) -> B { v }
    open spec fn pos(self) -> bool { self.n > 0 }
    proof fn progress(self, b: B) {  }
    open spec fn fits(self, v: B) -> bool { true }
    open spec fn valid(self, v: B) -> bool { v.len() == self.n }
    open spec fn parse(self, b: B) -> Option<(B, B)> { if 0 <= self.n <= b.len() { Some((take(b, self.n), rest_of(b, self.n))) } else { None } }
    proof fn roundtrip(self, v: B, rest: B) { assert(take(v + rest, self.n) =~= v); assert(rest_of(v + rest, self.n) =~= rest); }
    open spec fn like(self, g: Self) -> bool { true }
    proof fn same(self, g: Self, v: Self::V) {  }
    proof fn canonical(self, b: B) { if 0 <= self.n <= b.len() { assert(b =~= take(b, self.n) + rest_of(b, self.n)); } }
}
// byte strings with a length field of n bytes
pub struct Bytes { pub n: nat }
impl Fmt for Bytes {
    type V = B;
    open spec fn enc(self, v: B) -> B { unbe(v.len() as int, self.n) + v }
    open spec fn pos(self) -> bool { self.n > 0 }
    proof fn progress(self, b: B) { match (UInt { n: self.n }).parse(b) { None => {} Some((k, r)) => { Fixed { n: k }.canonical(r); UInt { n: self.n }.progress(b); } } }
    open spec fn fits(self, v: B) -> bool { v.len() < pow256(self.n) }
    open spec fn valid(self, v: B) -> bool { v.len() < pow256(self.n) }
    open spec fn parse(self, b: B) -> Option<(B, B)> { match (UInt { n: self.n }).parse(b) { None => None, Some((k, r)) => (Fixed { n: k }).parse(r) } }
    proof fn roundtrip(self, v: B, rest: B) { UInt { n: self.n }.roundtrip(v.len() as int, v + rest); Fixed { n: v.len() as int }.roundtrip(v, rest); assert(unbe(v.len() as int, self.n) + (v + rest) =~= self.enc(v) + rest); }
    open spec fn like(self, g: Self) -> bool { self.n == g.n }
    proof fn same(self, g: Self, v: Self::V) {  }
    proof fn canonical(self, b: B) { UInt { n: self.n }.canonical(b); match (UInt { n: self.n }).parse(b) { None => {} Some((k, r)) => { Fixed { n: k }.canonical(r); match (Fixed { n: k }).parse(r) { None => {} Some((v, r2)) => { assert(b =~= self.enc(v) + r2); } } } } }
}
// presence byte
pub struct Opt<F> { pub f: F }
impl<F: Fmt> Fmt for Opt<F> {
    type V = Option<F::V>;
    open spec fn enc(self, v: Option<F::V>) -> B { match v { None => seq![0u8], Some(x) => seq![1u8] + self.f.enc(x) } }
    open spec fn pos(self) -> bool { true }
    proof fn progress(self, b: B) { if b.len() > 0 { let t = rest_of(b, 1); assert(t.len() == b.len() - 1); self.f.canonical(t); match self.f.parse(t) { None => {} Some((x, r)) => { assert(t.len() == self.f.enc(x).len() + r.len()); } } } }
    open spec fn fits(self, v: Option<F::V>) -> bool { match v { None => true, Some(x) => self.f.fits(x) } }
    open spec fn valid(self, v: Option<F::V>) -> bool { match v { None => true, Some(x) => self.f.valid(x) } }
    open spec fn parse(self, b: B) -> Option<(Option<F::V>, B)> {
        if b.len() == 0 { None } else if b[0] == 0 { Some((None, rest_of(b, 1))) } else if b[0] == 1 { match self.f.parse(rest_of(b, 1)) { None => None, Some((x, r)) => Some((Some(x), r)) } } else { None }
    }
    proof fn roundtrip(self, v: Option<F::V>, rest: B) {
        let e = self.enc(v) + rest;
        match v { None => { assert(e[0] == 0u8); assert(rest_of(e, 1) =~= rest); } Some(x) => { self.f.roundtrip(x, rest); assert(e[0] == 1u8); assert(rest_of(e, 1) =~= self.f.enc(x) + rest); } }
    }
    open spec fn like(self, g: Self) -> bool { self.f.like(g.f) }
    proof fn same(self, g: Self, v: Self::V) { match v { None => {} Some(x) => { self.f.same(g.f, x); } } }
    proof fn canonical(self, b: B) {
        if b.len() > 0 { assert(b =~= seq![b[0]] + rest_of(b, 1)); self.f.canonical(rest_of(b, 1)); match self.f.parse(rest_of(b, 1)) { None => {} Some((x, r)) => { assert(b[0] == 1 ==> b =~= self.enc(Some(x)) + r); } } }
    }
}
// present exactly when the decoder's configuration says so
pub struct Cond<F> { pub on: bool, pub f: F }
impl<F: Fmt> Fmt for Cond<F> {
    type V = Option<F::V>;
    open spec fn enc(self, v: Option<F::V>) -> B { match v { None => Seq::empty(), Some(x) => self.f.enc(x) } }
    open spec fn pos(self) -> bool { self.on && self.f.pos() }
    proof fn progress(self, b: B) { self.f.progress(b); }
    open spec fn fits(self, v: Option<F::V>) -> bool { match v { None => true, Some(x) => self.f.fits(x) } }
    open spec fn valid(self, v: Option<F::V>) -> bool { match v { None => !self.on, Some(x) => self.on && self.f.valid(x) } }
    open spec fn parse(self, b: B) -> Option<(Option<F::V>, B)> { if self.on { match self.f.parse(b) { None => None, Some((x, r)) => Some((Some(x), r)) } } else { Some((None, b)) } }
    proof fn roundtrip(self, v: Option<F::V>, rest: B) { match v { None => { assert(self.enc(v) + rest =~= rest); } Some(x) => { self.f.roundtrip(x, rest); } } }
    open spec fn like(self, g: Self) -> bool { self.f.like(g.f) }
    proof fn same(self, g: Self, v: Self::V) { match v { None => {} Some(x) => { self.f.same(g.f, x); } } }
    proof fn canonical(self, b: B) { self.f.canonical(b); assert(Seq::<u8>::empty() + b =~= b); }
}
impl<F: Fmt, G: Fmt> Fmt for (F, G) {
    type V = (F::V, G::V);
    open spec fn enc(self, v: (F::V, G::V)) -> B { self.0.enc(v.0) + self.1.enc(v.1) }
    open spec fn pos(self) -> bool { self.0.pos() || self.1.pos() }
    proof fn progress(self, b: B) { match self.0.parse(b) { None => {} Some((x, r)) => { self.0.canonical(b); self.1.canonical(r); if self.0.pos() { self.0.progress(b); } else { self.1.progress(r); } } } }
    open spec fn fits(self, v: (F::V, G::V)) -> bool { self.0.fits(v.0) && self.1.fits(v.1) }
    open spec fn valid(self, v: (F::V, G::V)) -> bool { self.0.valid(v.0) && self.1.valid(v.1) }
    open spec fn parse(self, b: B) -> Option<((F::V, G::V), B)> { match self.0.parse(b) { None => None, Some((x, r)) => match self.1.parse(r) { None => None, Some((y, s)) => Some(((x, y), s)) } } }
    proof fn roundtrip(self, v: (F::V, G::V), rest: B) { self.1.roundtrip(v.1, rest); self.0.roundtrip(v.0, self.1.enc(v.1) + rest); assert(self.0.enc(v.0) + (self.1.enc(v.1) + rest) =~= self.enc(v) + rest); }
    open spec fn like(self, g: Self) -> bool { self.0.like(g.0) && self.1.like(g.1) }
    proof fn same(self, g: Self, v: Self::V) { self.0.same(g.0, v.0); self.1.same(g.1, v.1); }
    proof fn canonical(self, b: B) { self.0.canonical(b); match self.0.parse(b) { None => {} Some((x, r)) => { self.1.canonical(r); match self.1.parse(r) { None => {} Some((y, s)) => { assert(b =~= self.enc((x, y)) + s); } } } } }
}
// k elements, one after another
pub open spec fn enc_all<F: Fmt>(f: F, v: Seq<F::V>) -> B decreases v.len() { if v.len() == 0 { Seq::empty() } else { enc_all(f, v.drop_last()) + f.enc(v.last()) } }
pub open spec fn parse_all<F: Fmt>(f: F, k: nat, b: B) -> Option<(Seq<F::V>, B)> decreases k { if k == 0 { Some((Seq::empty(), b)) } else { match parse_all(f, (k - 1) as nat, b) { None => None, Some((v, r)) => match f.parse(r) { None => None, Some((x, s)) => Some((v.push(x), s)) } } } }
pub proof fn lemma_all_roundtrip<F: Fmt>(f: F, v: Seq<F::V>, rest: B) requires forall|i: int| 0 <= i < v.len() ==> f.valid(#[trigger] v[i]) ensures forall|i: int| 0 <= i < v.len() ==> f.fits(#[trigger] v[i]), parse_all(f, v.len(), enc_all(f, v) + rest) == Some((v, rest)) decreases v.len()
{
    if v.len() > 0 { let w = v.drop_last(); assert forall|i: int| 0 <= i < w.len() implies f.valid(#[trigger] w[i]) by { assert(w[i] == v[i]); }
        f.roundtrip(v.last(), rest); lemma_all_roundtrip(f, w, f.enc(v.last()) + rest); assert(enc_all(f, w) + (f.enc(v.last()) + rest) =~= enc_all(f, v) + rest); assert(w.push(v.last()) =~= v);
        assert forall|i: int| 0 <= i < v.len() implies f.fits(#[trigger] v[i]) by { if i < w.len() { assert(w[i] == v[i]); } } }
    else { assert(enc_all(f, v) + rest =~= rest); assert(v =~= Seq::empty()); }
}
pub proof fn lemma_all_canonical<F: Fmt>(f: F, k: nat, b: B) ensures match parse_all(f, k, b) { Some((v, r)) => v.len() == k && b == enc_all(f, v) + r && forall|i: int| 0 <= i < v.len() ==> f.valid(#[trigger] v[i]), None => true } decreases k
{
    if k == 0 { assert(enc_all(f, Seq::<F::V>::empty()) + b =~= b); } else { lemma_all_canonical(f, (k - 1) as nat, b); match parse_all(f, (k - 1) as nat, b) { None => {} Some((v, r)) => { f.canonical(r); match f.parse(r) { None => {} Some((x, s)) => { assert(v.push(x).drop_last() =~= v); assert(b =~= enc_all(f, v.push(x)) + s); } } } } }
}
pub proof fn lemma_all_same<F: Fmt>(f: F, g: F, v: Seq<F::V>) requires f.like(g) ensures enc_all(f, v) == enc_all(g, v) decreases v.len()
{ if v.len() > 0 { lemma_all_same(f, g, v.drop_last()); f.same(g, v.last()); } }
// lists with a count field of n bytes
pub struct List<F> { pub n: nat, pub f: F }
impl<F: Fmt> Fmt for List<F> {
    type V = Seq<F::V>;
    open spec fn enc(self, v: Seq<F::V>) -> B { unbe(v.len() as int, self.n) + enc_all(self.f, v) }
    open spec fn pos(self) -> bool { self.n > 0 }
    proof fn progress(self, b: B) { UInt { n: self.n }.progress(b); match (UInt { n: self.n }).parse(b) { None => {} Some((k, r)) => { lemma_all_canonical(self.f, k as nat, r); } } }
    open spec fn fits(self, v: Seq<F::V>) -> bool { v.len() < pow256(self.n) && forall|i: int| 0 <= i < v.len() ==> self.f.fits(#[trigger] v[i]) }
    open spec fn valid(self, v: Seq<F::V>) -> bool { v.len() < pow256(self.n) && forall|i: int| 0 <= i < v.len() ==> self.f.valid(#[trigger] v[i]) }
    open spec fn parse(self, b: B) -> Option<(Seq<F::V>, B)> { match (UInt { n: self.n }).parse(b) { None => None, Some((k, r)) => parse_all(self.f, k as nat, r) } }
    proof fn roundtrip(self, v: Seq<F::V>, rest: B) { UInt { n: self.n }.roundtrip(v.len() as int, enc_all(self.f, v) + rest); lemma_all_roundtrip(self.f, v, rest); assert(unbe(v.len() as int, self.n) + (enc_all(self.f, v) + rest) =~= self.enc(v) + rest); }
    open spec fn like(self, g: Self) -> bool { self.n == g.n && self.f.like(g.f) }
    proof fn same(self, g: Self, v: Self::V) { lemma_all_same(self.f, g.f, v); assert forall|i: int| 0 <= i < v.len() implies self.f.fits(#[trigger] v[i]) == g.f.fits(v[i]) by { self.f.same(g.f, v[i]); } }
    proof fn canonical(self, b: B) { UInt { n: self.n }.canonical(b); match (UInt { n: self.n }).parse(b) { None => {} Some((k, r)) => { lemma_all_canonical(self.f, k as nat, r); match parse_all(self.f, k as nat, r) { None => {} Some((v, s)) => { assert(b =~= self.enc(v) + s); } } } } }
}

pub proof fn lemma_all_progress<F: Fmt>(f: F, k: nat, b: B) requires f.pos() ensures match parse_all(f, k, b) { Some((v, r)) => r.len() + k <= b.len(), None => true } decreases k
{ if k > 0 { lemma_all_progress(f, (k - 1) as nat, b); match parse_all(f, (k - 1) as nat, b) { None => {} Some((v, r)) => { f.progress(r); } } } }
pub proof fn lemma_all_none<F: Fmt>(f: F, j: nat, k: nat, b: B) requires j <= k, parse_all(f, j, b).is_none() ensures parse_all(f, k, b).is_none() decreases k
{ if j < k { lemma_all_none(f, j, (k - 1) as nat, b); } }
// one byte: a for nothing, c for something
pub struct Tag2<F> { pub a: u8, pub c: u8, pub f: F }
impl<F: Fmt> Fmt for Tag2<F> {
    type V = Option<F::V>;
    open spec fn enc(self, v: Option<F::V>) -> B { match v { None => seq![self.a], Some(x) => seq![self.c] + self.f.enc(x) } }
    open spec fn pos(self) -> bool { true }
    proof fn progress(self, b: B) { if b.len() > 0 { let t = rest_of(b, 1); assert(t.len() == b.len() - 1); self.f.canonical(t); match self.f.parse(t) { None => {} Some((x, r)) => { assert(t.len() == self.f.enc(x).len() + r.len()); } } } }
    open spec fn fits(self, v: Option<F::V>) -> bool { match v { None => true, Some(x) => self.f.fits(x) } }
    open spec fn valid(self, v: Option<F::V>) -> bool { self.a != self.c && match v { None => true, Some(x) => self.f.valid(x) } }
    open spec fn parse(self, b: B) -> Option<(Option<F::V>, B)> {
        if self.a == self.c || b.len() == 0 { None } else if b[0] == self.a { Some((None, rest_of(b, 1))) } else if b[0] == self.c { match self.f.parse(rest_of(b, 1)) { None => None, Some((x, r)) => Some((Some(x), r)) } } else { None }
    }
    proof fn roundtrip(self, v: Option<F::V>, rest: B) {
        let e = self.enc(v) + rest;
        match v { None => { assert(e[0] == self.a); assert(rest_of(e, 1) =~= rest); } Some(x) => { self.f.roundtrip(x, rest); assert(e[0] == self.c); assert(rest_of(e, 1) =~= self.f.enc(x) + rest); } }
    }
    open spec fn like(self, g: Self) -> bool { self.a == g.a && self.c == g.c && self.f.like(g.f) }
    proof fn same(self, g: Self, v: Self::V) { match v { None => {} Some(x) => { self.f.same(g.f, x); } } }
    proof fn canonical(self, b: B) {
        if b.len() > 0 { assert(b =~= seq![b[0]] + rest_of(b, 1)); self.f.canonical(rest_of(b, 1)); match self.f.parse(rest_of(b, 1)) { None => {} Some((x, r)) => { assert(b[0] == self.c ==> b =~= self.enc(Some(x)) + r); } } }
    }
}
// one byte, then one of three
pub enum Or3<A, C, D> { A(A), C(C), D(D) }
pub struct Tag3<F, G, H> { pub a: u8, pub c: u8, pub d: u8, pub f: F, pub g: G, pub h: H }
impl<F: Fmt, G: Fmt, H: Fmt> Fmt for Tag3<F, G, H> {
    type V = Or3<F::V, G::V, H::V>;
    open spec fn enc(self, v: Or3<F::V, G::V, H::V>) -> B { match v { Or3::A(x) => seq![self.a] + self.f.enc(x), Or3::C(x) => seq![self.c] + self.g.enc(x), Or3::D(x) => seq![self.d] + self.h.enc(x) } }
    open spec fn pos(self) -> bool { true }
    proof fn progress(self, b: B) { self.canonical(b); match self.parse(b) { None => {} Some((v, r)) => { assert(b.len() == self.enc(v).len() + r.len()); } } }
    open spec fn fits(self, v: Or3<F::V, G::V, H::V>) -> bool { match v { Or3::A(x) => self.f.fits(x), Or3::C(x) => self.g.fits(x), Or3::D(x) => self.h.fits(x) } }
    open spec fn valid(self, v: Or3<F::V, G::V, H::V>) -> bool { self.a != self.c && self.a != self.d && self.c != self.d && match v { Or3::A(x) => self.f.valid(x), Or3::C(x) => self.g.valid(x), Or3::D(x) => self.h.valid(x) } }
    open spec fn parse(self, b: B) -> Option<(Or3<F::V, G::V, H::V>, B)> {
        if self.a == self.c || self.a == self.d || self.c == self.d || b.len() == 0 { None }
        else if b[0] == self.a { match self.f.parse(rest_of(b, 1)) { None => None, Some((x, r)) => Some((Or3::A(x), r)) } }
        else if b[0] == self.c { match self.g.parse(rest_of(b, 1)) { None => None, Some((x, r)) => Some((Or3::C(x), r)) } }
        else if b[0] == self.d { match self.h.parse(rest_of(b, 1)) { None => None, Some((x, r)) => Some((Or3::D(x), r)) } }
        else { None }
    }
    proof fn roundtrip(self, v: Or3<F::V, G::V, H::V>, rest: B) {
        let e = self.enc(v) + rest;
        match v {
            Or3::A(x) => { self.f.roundtrip(x, rest); assert(e[0] == self.a); assert(rest_of(e, 1) =~= self.f.enc(x) + rest); }
            Or3::C(x) => { self.g.roundtrip(x, rest); assert(e[0] == self.c); assert(rest_of(e, 1) =~= self.g.enc(x) + rest); }
            Or3::D(x) => { self.h.roundtrip(x, rest); assert(e[0] == self.d); assert(rest_of(e, 1) =~= self.h.enc(x) + rest); }
        }
    }
    open spec fn like(self, g: Self) -> bool { self.a == g.a && self.c == g.c && self.d == g.d && self.f.like(g.f) && self.g.like(g.g) && self.h.like(g.h) }
    proof fn same(self, g: Self, v: Self::V) { match v { Or3::A(x) => { self.f.same(g.f, x); } Or3::C(x) => { self.g.same(g.g, x); } Or3::D(x) => { self.h.same(g.h, x); } } }
    proof fn canonical(self, b: B) {
        if b.len() > 0 {
            let t = rest_of(b, 1);
            assert(b =~= seq![b[0]] + t); self.f.canonical(t); self.g.canonical(t); self.h.canonical(t);
            match self.f.parse(t) { None => {} Some((x, r)) => { assert(b[0] == self.a ==> b =~= self.enc(Or3::A(x)) + r); } }
            match self.g.parse(t) { None => {} Some((x, r)) => { assert(b[0] == self.c ==> b =~= self.enc(Or3::C(x)) + r); } }
            match self.h.parse(t) { None => {} Some((x, r)) => { assert(b[0] == self.d ==> b =~= self.enc(Or3::D(x)) + r); } }
        }
    }
}
// k elements, where the decoder knows k
pub struct Rep<F> { pub k: int, pub f: F }
impl<F: Fmt> Fmt for Rep<F> {
    type V = Seq<F::V>;
    open spec fn enc(self, v: Seq<F::V>) -> B { enc_all(self.f, v) }
    open spec fn pos(self) -> bool { false }
    proof fn progress(self, b: B) { }
    open spec fn fits(self, v: Seq<F::V>) -> bool { forall|i: int| 0 <= i < v.len() ==> self.f.fits(#[trigger] v[i]) }
    open spec fn valid(self, v: Seq<F::V>) -> bool { v.len() == self.k && forall|i: int| 0 <= i < v.len() ==> self.f.valid(#[trigger] v[i]) }
    open spec fn parse(self, b: B) -> Option<(Seq<F::V>, B)> { if self.k < 0 { None } else { parse_all(self.f, self.k as nat, b) } }
    proof fn roundtrip(self, v: Seq<F::V>, rest: B) { lemma_all_roundtrip(self.f, v, rest); }
    open spec fn like(self, g: Self) -> bool { self.f.like(g.f) }
    proof fn same(self, g: Self, v: Self::V) { lemma_all_same(self.f, g.f, v); assert forall|i: int| 0 <= i < v.len() implies self.f.fits(#[trigger] v[i]) == g.f.fits(v[i]) by { self.f.same(g.f, v[i]); } }
    proof fn canonical(self, b: B) { if self.k >= 0 { lemma_all_canonical(self.f, self.k as nat, b); } }
}
// a decoder reads exactly what the format says
pub open spec fn reads<F: Fmt>(f: F, b: B, v: F::V, rest: B, err: bool) -> bool { match f.parse(b) { None => err, Some((w, r)) => !err && v == w && rest == r } }
// an encoder appends exactly what the format says, or refuses what does not fit
pub open spec fn writes<F: Fmt>(f: F, v: F::V, b: B, c: B, err: bool) -> bool { (err <==> !f.fits(v)) && (!err ==> c == b + f.enc(v)) }
// C14: decoding an encoding, whatever follows it, gives the value back and
// leaves what follows (f: as the decoder is told; g: as the encoder).
pub proof fn prop_roundtrip<F: Fmt>(f: F, g: F, x: F::V, enc_err: bool, b0: B, bytes: B, y: F::V, rest: B, tail: B, dec_err: bool)
    requires f.like(g), f.valid(x), writes(g, x, b0, bytes, enc_err), reads(f, bytes.subrange(b0.len() as int, bytes.len() as int) + tail, y, rest, dec_err)
    ensures !enc_err, !dec_err, y == x, rest == tail
{ f.roundtrip(x, tail); f.same(g, x); assert(bytes.subrange(b0.len() as int, bytes.len() as int) =~= f.enc(x)); }
// C15: what is accepted re-encodes to the bytes that were consumed.
pub proof fn prop_canonical<F: Fmt>(f: F, g: F, b: B, y: F::V, rest: B, dec_err: bool, c: B, enc_err: bool)
    requires f.like(g), reads(f, b, y, rest, dec_err), !dec_err, writes(g, y, Seq::empty(), c, enc_err)
    ensures !enc_err, b == c + rest
{ f.canonical(b); f.roundtrip(y, rest); f.same(g, y); assert(Seq::<u8>::empty() + f.enc(y) =~= f.enc(y)); }
// Different values of a structure have different encodings.
pub proof fn prop_injective<F: Fmt>(f: F, g: F, x: F::V, y: F::V) requires f.like(g), f.valid(x), f.valid(y), g.enc(x) == g.enc(y) ensures x == y
{ f.roundtrip(x, Seq::empty()); f.roundtrip(y, Seq::empty()); f.same(g, x); f.same(g, y); }

//@ext bytes.Buffer.ReadByte
pub fn buf_ReadByte(b: &mut Buf) -> (r: (u8, Option<GoErr>)) ensures old(b)@.len() == 0 ==> r.1.is_some(), old(b)@.len() > 0 ==> r.1.is_none() && r.0 == old(b)@[0] && final(b)@ == rest_of(old(b)@, 1)
//@end
//@ext io.ReadFull|*bytes.Buffer,[]byte
pub fn io_ReadFull(b: &mut Buf, out: &mut Slice<u8>) -> (r: (i64, Option<GoErr>))
    ensures final(out)@.len() == old(out)@.len(), final(out).nil == old(out).nil,
        old(b)@.len() < old(out)@.len() ==> r.1.is_some(),
        old(b)@.len() >= old(out)@.len() ==> r.1.is_none() && final(out)@ == take(old(b)@, old(out)@.len() as int) && final(b)@ == rest_of(old(b)@, old(out)@.len() as int)
//@end
//@global io.ErrUnexpectedEOF err_const(Ghost(9int))
pub struct ByteOrder {}
impl Clone for ByteOrder { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ByteOrder {}
//@typemap encoding/binary.bigEndian ByteOrder ByteOrder{}
//@global encoding/binary.BigEndian ByteOrder{}
//@ext encoding/binary.Read|*bytes.Buffer,encoding/binary.bigEndian,*uint8
pub fn bin_Read_u8(b: &mut Buf, o: ByteOrder, v: &mut u8) -> (r: Option<GoErr>) ensures reads(UInt { n: 1 }, old(b)@, *final(v) as int, final(b)@, r.is_some())
//@end
//@ext encoding/binary.Write|*bytes.Buffer,encoding/binary.bigEndian,uint8
pub fn bin_Write_u8(b: &mut Buf, o: ByteOrder, v: u8) -> (r: Option<GoErr>) ensures final(b)@ == old(b)@ + unbe(v as int, 1), r.is_none()
//@end
//@ext encoding/binary.Read|*bytes.Buffer,encoding/binary.bigEndian,*uint16
pub fn bin_Read_u16(b: &mut Buf, o: ByteOrder, v: &mut u16) -> (r: Option<GoErr>) ensures reads(UInt { n: 2 }, old(b)@, *final(v) as int, final(b)@, r.is_some())
//@end
//@ext encoding/binary.Write|*bytes.Buffer,encoding/binary.bigEndian,uint16
pub fn bin_Write_u16(b: &mut Buf, o: ByteOrder, v: u16) -> (r: Option<GoErr>) ensures final(b)@ == old(b)@ + unbe(v as int, 2), r.is_none()
//@end
//@ext encoding/binary.Read|*bytes.Buffer,encoding/binary.bigEndian,*uint32
pub fn bin_Read_u32(b: &mut Buf, o: ByteOrder, v: &mut u32) -> (r: Option<GoErr>) ensures reads(UInt { n: 4 }, old(b)@, *final(v) as int, final(b)@, r.is_some())
//@end
//@ext encoding/binary.Write|*bytes.Buffer,encoding/binary.bigEndian,uint32
pub fn bin_Write_u32(b: &mut Buf, o: ByteOrder, v: u32) -> (r: Option<GoErr>) ensures final(b)@ == old(b)@ + unbe(v as int, 4), r.is_none()
//@end
//@ext encoding/binary.Read|*bytes.Buffer,encoding/binary.bigEndian,*uint64
pub fn bin_Read_u64(b: &mut Buf, o: ByteOrder, v: &mut u64) -> (r: Option<GoErr>) ensures reads(UInt { n: 8 }, old(b)@, *final(v) as int, final(b)@, r.is_some())
//@end
//@ext encoding/binary.Write|*bytes.Buffer,encoding/binary.bigEndian,uint64
pub fn bin_Write_u64(b: &mut Buf, o: ByteOrder, v: u64) -> (r: Option<GoErr>) ensures final(b)@ == old(b)@ + unbe(v as int, 8), r.is_none()
//@end
