#!/usr/bin/env python3
# Authoring aid: writes specs/codec.vrs (which is committed and is what the checks read).
P='tree/transparency/structs.'
N={'u8':1,'u16':2,'u32':4,'u64':8}
o='''//@use fmt.vrs
//@use keys.vrs
//@use psr.vrs
// ---- C14, C15: the codecs
//@nonnil NONNIL
// Left-nested concatenations are rewritten to the right.
pub mod fmtax { use vstd::prelude::*; verus! {
pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn seq_push(a: Seq<u8>, x: u8) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
pub uninterp spec fn vpsize(cs: super::Suite) -> int;
pub uninterp spec fn opsize(cs: super::Suite) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_vpsize(cs: super::Suite) ensures 1 <= #[trigger] vpsize(cs) <= 0xffff {}
#[verifier::external_body]
pub broadcast proof fn axiom_opsize(cs: super::Suite) ensures 1 <= #[trigger] opsize(cs) <= 0xffff {}
} }
pub use fmtax::{vpsize, opsize};
broadcast use fmtax::seq_assoc, fmtax::seq_push, fmtax::axiom_vpsize, fmtax::axiom_opsize;
//@ext crypto/suites.CipherSuite.VrfProofSize
pub fn suite_VrfProofSize(cs: Suite) -> (r: i64) ensures r == vpsize(cs)
//@end
//@ext crypto/suites.CipherSuite.CommitmentOpeningSize
pub fn suite_CommitmentOpeningSize(cs: Suite) -> (r: i64) ensures r == opsize(cs)
//@end
// pow256 and one-byte integers, computed
pub proof fn lemma_pows() ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow256, 10); }
pub proof fn lemma_one(x: int) requires 0 <= x < 256 ensures unbe(x, 1) == seq![x as u8] { reveal_with_fuel(unbe, 3); assert(unbe(x, 1) =~= seq![x as u8]); }
pub proof fn lemma_cat<F: Fmt, G: Fmt>(f: F, g: G, x: F::V, y: G::V, b0: B, b1: B, b2: B, e: bool) requires writes(f, x, b0, b1, false), writes(g, y, b1, b2, e) ensures writes((f, g), (x, y), b0, b2, e) { assert((b0 + f.enc(x)) + g.enc(y) =~= b0 + (f.enc(x) + g.enc(y))); }
pub open spec fn views(s: Seq<Slice<u8>>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn nums_u32(s: Seq<u32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn nums_u64(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn ov_u32(x: Option<u32>) -> Option<int> { match x { Some(y) => Some(y as int), None => None } }
pub open spec fn ov_u64(x: Option<u64>) -> Option<int> { match x { Some(y) => Some(y as int), None => None } }
// as an encoder is told: element sizes come with the elements
pub open spec fn e_bytes() -> Fixed { Fixed { n: hsize(any_cs()) } }
pub open spec fn nilopt(x: Slice<u8>) -> Option<B> { if x.nil@ { None } else { Some(x@) } }
'''
# helpers
for t in N:
    o+=f'''//@go {P}readNumeric[{t}]
pub fn st_readNumeric_{t}(buf_r: &mut Buf) -> (r: ({t}, Option<GoErr>)) ensures reads(UInt {{ n: {N[t]} }}, old(buf_r)@, r.0 as int, final(buf_r)@, r.1.is_some())
//@end
//@go {P}writeNumeric[{t}]
pub fn st_writeNumeric_{t}(buf_r: &mut Buf, val: {t}) ensures final(buf_r)@ == old(buf_r)@ + unbe(val as int, {N[t]})
//@end
'''
o+=f'''//@go {P}readOptional
pub fn st_readOptional(buf_r: &mut Buf) -> (r: (bool, Option<GoErr>)) ensures r.1.is_none() <==> old(buf_r)@.len() > 0 && old(buf_r)@[0] <= 1, r.1.is_none() ==> r.0 == (old(buf_r)@[0] == 1) && final(buf_r)@ == rest_of(old(buf_r)@, 1)
//@end
//@go {P}writeOptional
pub fn st_writeOptional(buf_r: &mut Buf, present: bool) -> (r: bool) ensures r == present, final(buf_r)@ == old(buf_r)@ + seq![if present {{ 1u8 }} else {{ 0u8 }}]
//@end
//@go {P}checkSize
pub fn st_checkSize(buf: Buf, size: i64) -> (r: Option<GoErr>) ensures r.is_some() <==> size > buf@.len()
//@end
'''
for t in ('u32','u64'):
    o+=f'''//@go {P}readOptionalNumeric[{t}]
pub fn st_readOptionalNumeric_{t}(buf_r: &mut Buf) -> (r: (Option<{t}>, Option<GoErr>)) ensures reads(Opt {{ f: UInt {{ n: {N[t]} }} }}, old(buf_r)@, ov_{t}(r.0), final(buf_r)@, r.1.is_some())
//@end
//@go {P}writeOptionalNumeric[{t}]
pub fn st_writeOptionalNumeric_{t}(buf_r: &mut Buf, val: Option<{t}>) ensures writes(Opt {{ f: UInt {{ n: {N[t]} }} }}, ov_{t}(val), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof {{ lemma_pows(); }}
//@end
'''
def hyp(t): return "proof { lemma_pows(); }"
for t in ('u8','u16','u32'):
    o+=f'''//@go {P}max[{t}]
pub fn st_max_{t}() -> (r: i64) ensures r == pow256({N[t]}) - 1
//@hint entry
    proof {{ lemma_pows(); assert(!0u8 == 255u8) by(bit_vector); assert(!0u16 == 65535u16) by(bit_vector); assert(!0u32 == 0xffff_ffffu32) by(bit_vector); }}
//@end
//@go {P}readBytes[{t}]
pub fn st_readBytes_{t}(buf_r: &mut Buf) -> (r: (Slice<u8>, Option<GoErr>)) ensures reads(Bytes {{ n: {N[t]} }}, old(buf_r)@, r.0@, final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@end
//@go {P}writeBytes[{t}]
pub fn st_writeBytes_{t}(buf_r: &mut Buf, out: Slice<u8>, name: Str) -> (r: Option<GoErr>) ensures writes(Bytes {{ n: {N[t]} }}, out@, old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof {{ lemma_pows(); }}
//@end
'''
def readlist(key,name,t,elty,viewfn,subf,subft,extra_params,elview,bound,capreq="",fmtpos=True):
    L=f"List {{ n: {N[t]}, f: {subf} }}"
    return f'''//@go {key}
pub fn {name}(buf_r: &mut Buf{extra_params}) -> (r: (Slice<{elty}>, Option<GoErr>))
    ensures reads({L}, old(buf_r)@, {viewfn}(r.0@), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !r.0.nil@
//@attr alloc buf@.len() + 0xffff
//@hint after call st_readNumeric_{t} 1
    let ghost b1 = buf@;
    proof {{ lemma_pows(); lemma_all_progress({subf}, RES0 as nat, b1); }}
//@hint before loop 1
    proof {{ assert({viewfn}(out@.subrange(0, 0)) =~= Seq::empty()); }}
//@loop 1
    invariant out@.len() == size, !out.nil@, parse_all({subf}, IDX as nat, b1) == Some(({viewfn}(out@.subrange(0, IDX as int)), buf@)),
        (UInt {{ n: {N[t]} }}).parse(old(buf_r)@) == Some((size as int, b1)),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = out;
    let ghost bi = buf@;
    proof {{ if parse_all({subf}, IDX1 as nat, b1).is_none() {{ lemma_all_none({subf}, IDX1 as nat, size as nat, b1); }} }}
//@hint loop 1 bottom
    proof {{ assert({viewfn}(out@.subrange(0, IDX1 as int)) =~= {viewfn}(out0@.subrange(0, IDX1 - 1)).push({elview})); }}
//@hint after loop 1
    proof {{ assert(out@.subrange(0, size as int) =~= out@); }}
//@end
'''
def writelist(key,name,t,elty,viewfn,subf,elview,lead="pub fn",extra_req=""):
    L=f"List {{ n: {N[t]}, f: {subf} }}"
    return f'''//@go {key}
pub fn {name}(buf_r: &mut Buf, out: Slice<{elty}>, name: Str) -> (r: Option<GoErr>)
    {extra_req}ensures writes({L}, {viewfn}(out@), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof {{ lemma_pows(); }}
//@hint before loop 1
    proof {{ assert({viewfn}(out@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }}
//@loop 1
    invariant SEQ == out, out@.len() < pow256({N[t]}), buf@ == old(buf_r)@ + (unbe(out@.len() as int, {N[t]}) + enc_all({subf}, {viewfn}(out@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> ({subf}).fits(#[trigger] {viewfn}(out@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof {{ let w = {viewfn}(out@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= {viewfn}(out@.subrange(0, IDX1 - 1))); assert(w.last() == {viewfn}(out@)[IDX1 - 1]); assert({viewfn}(out@)[IDX1 - 1] == {elview}); }}
//@hint after loop 1
    proof {{ assert(out@.subrange(0, out@.len() as int) =~= out@); }}
//@end
'''
# byte-slice lists
for t in ('u8','u16'):
    o+=readlist(f"{P}readByteSlice[{t}]",f"st_readByteSlice_{t}",t,"Slice<u8>","views","Fixed { n: n as int }","Fixed",", n: i64","elem@","").replace("    ensures reads","    requires 0 < n <= 0xffff\n    ensures reads")
    o+=writelist(f"{P}writeByteSlice[{t}]",f"st_writeByteSlice_{t}",t,"Slice<u8>","views","e_bytes()","elem@")
for t,u in (('u8','u64'),('u8','u32'),('u32','u64')):
    o+=readlist(f"{P}readNumericSlice[{t},{u}]",f"st_readNumericSlice_{t}_{u}",t,u,f"nums_{u}",f"UInt {{ n: {N[u]} }}","UInt","","val as int","")
    o+=writelist(f"{P}writeNumericSlice[{t},{u}]",f"st_writeNumericSlice_{t}_{u}",t,u,f"nums_{u}",f"UInt {{ n: {N[u]} }}","elem as int")

# ---- structures
S={}
OTHER=set()
NULLABLE={'TreeHead','AuditorTreeHead','LabelOwnerState'}
def num(n): return lambda f:("UInt",f"UInt {{ n: {n} }}",f"({f} as int)")
def optnum(t): return lambda f:("Opt<UInt>",f"Opt {{ f: UInt {{ n: {N[t]} }} }}",f"ov_{t}({f})")
def bts(n): return lambda f:("Bytes",f"Bytes {{ n: {n} }}",f"{f}@")
def fixed(e): return lambda f:("Fixed",f"Fixed {{ n: {e} }}",f"{f}@")
def optfixed(e): return lambda f:("Opt<Fixed>",f"Opt {{ f: Fixed {{ n: {e} }} }}",f"nilopt({f})")
def lst(n,X): return lambda f:(f"List<{S[X]['ty']}>",f"List {{ n: {n}, f: {S[X]['call']} }}",f"vs_{X}({f}@)")
def bsl(n,e): return lambda f:("List<Fixed>",f"List {{ n: {n}, f: Fixed {{ n: {e} }} }}",f"views({f}@)")
def nums(n,u): return lambda f:("List<UInt>",f"List {{ n: {n}, f: UInt {{ n: {N[u]} }} }}",f"nums_{u}({f}@)")
def sub(X): return lambda f:(S[X]['ty'],S[X]['call'],f"v_{X}({f})")
def cond(c,X): return lambda f:(f"Cond<{S[X]['ty']}>",f"Cond {{ on: {c}, f: {S[X]['call']} }}",f"(match {f} {{ Some(y) => Some(v_{X}(y)), None => None }})")
CT={'cs':'Suite','config':'st_PublicConfig','req':'st_SearchRequest'}
def nest(l): return l[0] if len(l)==1 else f"({l[0]}, {nest(l[1:])})"
ALIAS={}
def decl(X,fields,ctx=(),rust=None,slices=()):
    global o
    rust=rust or "st_"+X
    parts=[mk("x."+f) for f,mk in fields]
    ty=nest([p[0] for p in parts]); ex=nest([p[1] for p in parts]); vw=nest([p[2] for p in parts])
    c=", ".join(ctx)
    anyc=", ".join(f"any_{k}()" for k in ctx)
    S[X]=dict(ty=f"F_{X}",call=f"f_{X}({c})",ctx=ctx,rust=rust)
    ps=", ".join(f"{k}: {CT[k]}" for k in ctx)
    o+=f'''pub type F_{X} = {ty};
pub open spec fn f_{X}({ps}) -> F_{X} {{ {ex} }}
pub open spec fn e_{X}() -> F_{X} {{ f_{X}({anyc}) }}
pub open spec fn v_{X}(x: {rust}) -> <F_{X} as Fmt>::V {{ {vw} }}
pub open spec fn vs_{X}(s: Seq<{rust}>) -> Seq<<F_{X} as Fmt>::V> {{ Seq::new(s.len(), |i: int| v_{X}(s[i])) }}
'''
    if ctx: o+=f"pub proof fn like_{X}({ps}) ensures f_{X}({c}).like(e_{X}()) {{}}\n"
def dec(X,go,name,ctx=None,hints="",extra=""):
    global o
    ctx=S[X]['ctx'] if ctx is None else ctx
    ps="".join(f"{k}: {CT[k]}, " for k in ctx)
    ty,rv=S[X]['rust'],"r.0"
    if X in NULLABLE: ty,rv=f"Option<{ty}>","r.0.unwrap()"; extra+=", r.1.is_none() ==> r.0.is_some()"
    o+=f'''//@go {go}
pub fn {name}({ps}buf_r: &mut Buf) -> (r: ({ty}, Option<GoErr>)) ensures reads({S[X]['call']}, old(buf_r)@, v_{X}({rv}), final(buf_r)@, r.1.is_some()){extra}
//@attr alloc buf@.len() + 0xffff
{hints}//@end
'''
def enc(X,go,name,recv="x",hints="",req=""):
    global o
    ty,rv=S[X]['rust'],recv
    if X in NULLABLE: ty,rv=f"Option<{ty}>",recv+".unwrap()"; req=f"requires {recv}.is_some() "+req.replace("requires",",")
    o+=f'''//@go {go}
pub fn {name}({recv}: {ty}, buf_r: &mut Buf) -> (r: Option<GoErr>) {req}ensures writes(e_{X}(), v_{X}({rv}), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof {{ lemma_pows(); }}
{hints}//@end
'''
def std(X,fields,ctx=(),recv="x",eh="",dh="",nn=None):
    decl(X,fields,ctx)
    dec(X,P+"New"+X,"st_New"+X,hints=dh,extra=f", r.1.is_none() ==> {nn('r.0')}" if nn else "")
    enc(X,P+X+".Marshal",f"st_{X}_Marshal",recv,hints=eh,req=f"requires {nn(recv)} " if nn else "")
def rl(t,X,F,ctx,nn=None):
    """readFuncSlice instances"""
    global o
    rust=S[X]['rust']
    ps="".join(f", {k}: {CT[k]}" for k in ctx)
    r=readlist(f"{P}readFuncSlice[{t},{rust}]#{F}",f"st_readFuncSlice_{t}_{X}",t,rust,f"vs_{X}",S[X]['call'],S[X]['ty'],ps,f"v_{X}(elem)","")
    if nn:
        r=r.replace("==> !r.0.nil@",f"==> !r.0.nil@ && {nn}(r.0@)").replace("    decreases SEQ - IDX",f"        {nn}(out@.subrange(0, IDX as int)),\n    decreases SEQ - IDX").replace("//@hint after loop 1",f"    proof {{ assert(out@.subrange(0, IDX1 as int) =~= out0@.subrange(0, IDX1 - 1).push(elem)); }}\n//@hint after loop 1")
    o+=r
def wl(t,X,nn=None):
    global o
    rust=S[X]['rust']
    r=writelist(f"{P}writeMarshalSlice[{t},{rust},{rust}]",f"st_writeMarshalSlice_{t}_{X}",t,rust,f"vs_{X}",f"e_{X}()",f"v_{X}(elem)",extra_req=f"requires {nn}(out@) " if nn else "")
    o+=r
o+='''pub uninterp spec fn any_config() -> st_PublicConfig;
pub open spec fn any_cs() -> Suite { any_config().Config.Suite }
'''

# ---- the structures
std("TreeHead",[("TreeSize",num(8)),("Signature",bts(2))])
std("AuditorTreeHead",[("Timestamp",num(8)),("TreeSize",num(8)),("Signature",bts(2))])
std("LabelValue",[("Value",bts(4))])
std("MonitorMapEntry",[("Position",num(8)),("Version",num(4))])
rl('u8',"LabelValue",P+"NewLabelValue",())
wl('u8',"LabelValue")

MODE="config.Config.Mode"
def opt_mode(n,m): return lambda f:("Cond<Bytes>",f"Cond {{ on: {MODE} == {m}u8, f: Bytes {{ n: {n} }} }}",f"nilopt({f})")
def optsub(X): return lambda f:(f"Opt<{S[X]['ty']}>",f"Opt {{ f: {S[X]['call']} }}",f"(match {f} {{ Some(y) => Some(v_{X}(y)), None => None }})")
H="hsize(cs)"; HC="hsize(config.Config.Suite)"
# prefix proofs: search results are a closed interface
OTHER|={'PSR','PrefixProof','PrefixEntry'}
S['PSR']=dict(ty="F_PSR",call="f_PSR(cs)",ctx=('cs',),rust="PSR")
o+='''pub type F_PSR = Tag3<UInt, (Fixed, (Fixed, UInt)), UInt>;
pub open spec fn f_PSR(cs: Suite) -> F_PSR { Tag3 { a: 1, c: 2, d: 3, f: UInt { n: 1 }, g: (Fixed { n: hsize(cs) }, (Fixed { n: hsize(cs) }, UInt { n: 1 })), h: UInt { n: 1 } } }
pub open spec fn e_PSR() -> F_PSR { f_PSR(any_cs()) }
// a depth is one byte on the wire (what a tree of 256-bit keys needs)
pub open spec fn v_PSR(r: PSR) -> <F_PSR as Fmt>::V { match r { PSR::Incl(p) => Or3::A(p.depth as int % 256), PSR::Leaf(p) => Or3::C((p.leaf.vrfOutput@, (p.leaf.commitment@, p.depth as int % 256))), PSR::Parent(p) => Or3::D(p.depth as int % 256), PSR::Nil => arbitrary() } }
pub open spec fn vs_PSR(s: Seq<PSR>) -> Seq<<F_PSR as Fmt>::V> { Seq::new(s.len(), |i: int| v_PSR(s[i])) }
pub proof fn like_PSR(cs: Suite) ensures f_PSR(cs).like(e_PSR()) {}
pub proof fn lemma_PSR_len(f: F_PSR, b: B) ensures match f.parse(b) { Some((v, r)) => true, None => true } { }
'''
for v,n in (("inclusionProof","Incl"),("nonInclusionLeafProof","Leaf"),("nonInclusionParentProof","Parent")):
    o+=f'''//@go tree/prefix.{v}.Marshal
pub fn px_{v}_Marshal(x: px_{v}, buf_r: &mut Buf) ensures writes(e_PSR(), v_PSR(PSR::{n}(x)), old(buf_r)@, final(buf_r)@, false)
//@hint entry
    proof {{ lemma_pows(); lemma_one(x.depth as int % 256); }}
//@end
'''
o+='''//@go tree/prefix.unmarshalSearchResult
pub fn px_unmarshalSearchResult(cs: Suite, buf_r: &mut Buf) -> (r: (PSR, Option<GoErr>)) ensures reads(f_PSR(cs), old(buf_r)@, v_PSR(r.0), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> !(r.0 is Nil)
//@attr alloc buf@.len() + 0xffff
//@hint entry
    proof { lemma_pows(); let b = buf@; assert forall|x: B| #![trigger (UInt { n: 1 }).parse(x)] x.len() > 0 implies be(take(x, 1)) == x[0] by { lemma_be1(x); } }
//@end
'''
decl("PrefixProof",[("Results",lst(1,"PSR")),("Elements",bsl(2,H))],('cs',),rust="px_PrefixProof")
L1="f_PSR(cs)"; L2="Fixed { n: hsize(cs) }"
dec("PrefixProof","tree/prefix.NewPrefixProof","px_NewPrefixProof",extra=", r.1.is_none() ==> psr_nn(r.0.Results@)",hints=f'''//@hint entry
    let ghost b0 = buf@;
    let ghost mut b1 = b0;
    let ghost mut b2 = b0;
    let ghost mut b3 = b0;
    proof {{ lemma_pows(); if b0.len() > 0 {{ lemma_be1(b0); }} }}
//@hint after call buf_ReadByte 1
    proof {{ b1 = buf@; lemma_all_progress({L1}, RES0 as nat, b1); }}
//@hint before loop 1
    proof {{ assert(vs_PSR(results@.subrange(0, 0)) =~= Seq::empty()); }}
//@loop 1
    invariant results@.len() == SEQ, parse_all({L1}, IDX as nat, b1) == Some((vs_PSR(results@.subrange(0, IDX as int)), buf@)),
        forall|i: int| 0 <= i < IDX ==> !(#[trigger] results@[i] is Nil),
    decreases SEQ - IDX
//@hint loop 1 top
    let ghost out0 = results;
    proof {{ if parse_all({L1}, IDX1 as nat, b1).is_none() {{ lemma_all_none({L1}, IDX1 as nat, SEQ1 as nat, b1); }} }}
//@hint loop 1 bottom
    proof {{ assert(vs_PSR(results@.subrange(0, IDX1 as int)) =~= vs_PSR(out0@.subrange(0, IDX1 - 1)).push(v_PSR(result))); }}
//@hint after loop 1
    proof {{ assert(results@.subrange(0, results@.len() as int) =~= results@); b2 = buf@; assert((List {{ n: 1, f: {L1} }}).parse(b0) == Some((vs_PSR(results@), b2))); }}
//@hint after call bin_Read_u16 1
    proof {{ b3 = buf@; lemma_all_progress({L2}, numElements as nat, b3); }}
//@hint before loop 2
    proof {{ assert(views(elements@.subrange(0, 0)) =~= Seq::empty()); }}
//@loop 2
    invariant elements@.len() == SEQ, parse_all({L2}, IDX as nat, b3) == Some((views(elements@.subrange(0, IDX as int)), buf@)),
    decreases SEQ - IDX
//@hint loop 2 top
    let ghost out0 = elements;
    proof {{ if parse_all({L2}, IDX2 as nat, b3).is_none() {{ lemma_all_none({L2}, IDX2 as nat, SEQ2 as nat, b3); }} }}
//@hint loop 2 bottom
    proof {{ assert(views(elements@.subrange(0, IDX2 as int)) =~= views(out0@.subrange(0, IDX2 - 1)).push(elem@)); }}
//@hint after loop 2
    proof {{ assert(elements@.subrange(0, elements@.len() as int) =~= elements@); }}
''')
o=o.replace("pub open spec fn views(","pub proof fn lemma_be1(x: B) requires x.len() > 0 ensures be(take(x, 1)) == x[0], (UInt { n: 1 }).parse(x) == Some((x[0] as int, rest_of(x, 1))) { reveal_with_fuel(be, 3); let t = take(x, 1); assert(t.drop_last() =~= Seq::empty()); assert(t.last() == x[0]); }\npub open spec fn views(",1)
enc("PrefixProof","tree/prefix.PrefixProof.Marshal","px_PrefixProof_Marshal",req="requires psr_nn(x.Results@) ",hints='''    let ghost mut c1 = buf@;
//@hint before loop 1
    proof { lemma_one(x.Results@.len() as int); assert(vs_PSR(x.Results@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == x.Results, x.Results@.len() < 256, psr_nn(x.Results@), buf@ == old(buf_r)@ + (unbe(x.Results@.len() as int, 1) + enc_all(e_PSR(), vs_PSR(x.Results@.subrange(0, IDX as int)))),
        forall|i: int| 0 <= i < IDX ==> e_PSR().fits(#[trigger] vs_PSR(x.Results@)[i]),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = vs_PSR(x.Results@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= vs_PSR(x.Results@.subrange(0, IDX1 - 1))); assert(w.last() == vs_PSR(x.Results@)[IDX1 - 1]); assert(vs_PSR(x.Results@)[IDX1 - 1] == v_PSR(res)); }
//@hint after loop 1
    proof { c1 = buf@; assert(x.Results@.subrange(0, x.Results@.len() as int) =~= x.Results@); }
//@hint before loop 2
    proof { assert(views(x.Elements@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 2
    invariant SEQ == x.Elements, x.Elements@.len() < 65536, buf@ == c1 + (unbe(x.Elements@.len() as int, 2) + enc_all(e_bytes(), views(x.Elements@.subrange(0, IDX as int)))),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    proof { let w = views(x.Elements@.subrange(0, IDX2 as int)); assert(w.drop_last() =~= views(x.Elements@.subrange(0, IDX2 - 1))); assert(w.last() == elem@); }
//@hint after loop 2
    proof { assert(x.Elements@.subrange(0, x.Elements@.len() as int) =~= x.Elements@); }
''')

std("UpdateSuffix",[("Signature",opt_mode(2,2))],('config',))
CT['config']='st_PublicConfig'
o+="pub uninterp spec fn any_req() -> st_SearchRequest;\n"
std("UpdateValue",[("Value",bts(4)),("UpdateSuffix",sub("UpdateSuffix"))],('config',))
std("LogEntry",[("Timestamp",num(8)),("PrefixTree",fixed(H))],('cs',))
std("BinaryLadderStep",[("Proof",fixed("vpsize(cs)")),("Commitment",optfixed(H))],('cs',))
std("OpeningAndValue",[("Opening",fixed("opsize(config.Config.Suite)")),("Value",sub("UpdateValue"))],('config',))
std("UpdateInfo",[("Opening",fixed("opsize(config.Config.Suite)")),("UpdateSuffix",sub("UpdateSuffix"))],('config',))
std("InclusionProof",[("Elements",bsl(2,H))],('cs',))
rl('u8',"PrefixProof","tree/prefix.NewPrefixProof",('cs',),nn="pps_nn")
wl('u8',"PrefixProof",nn="pps_nn")
o+="pub open spec fn pps_nn(s: Seq<px_PrefixProof>) -> bool { forall|i: int| 0 <= i < s.len() ==> psr_nn((#[trigger] s[i]).Results@) }\n"
def ctp(f): return lambda x: f"pps_nn({x}.{f}.PrefixProofs@)"

std("CombinedTreeProof",[("Timestamps",nums(1,'u64')),("PrefixProofs",lst(1,"PrefixProof")),("PrefixRoots",bsl(1,H)),("Inclusion",sub("InclusionProof"))],('cs',),nn=lambda x:f"pps_nn({x}.PrefixProofs@)")

def scall(X): return f"f_{X}(config.Config.Suite)"
def subs(X): return lambda f:(S[X]['ty'],scall(X),f"v_{X}({f})")
def lsts(n,X): return lambda f:(f"List<{S[X]['ty']}>",f"List {{ n: {n}, f: {scall(X)} }}",f"vs_{X}({f}@)")
# tree heads
S['FullTreeHead']=dict(ty="F_FullTreeHead",call="f_FullTreeHead(config)",ctx=('config',),rust="st_FullTreeHead")
o+='''pub type F_FullTreeHead = Tag2<(F_TreeHead, Cond<F_AuditorTreeHead>)>;
pub open spec fn f_FullTreeHead(config: st_PublicConfig) -> F_FullTreeHead { Tag2 { a: 1, c: 2, f: (f_TreeHead(), Cond { on: config.Config.Mode == 3u8, f: f_AuditorTreeHead() }) } }
pub open spec fn e_FullTreeHead() -> F_FullTreeHead { f_FullTreeHead(any_config()) }
pub open spec fn v_FullTreeHead(x: st_FullTreeHead) -> <F_FullTreeHead as Fmt>::V { match x.TreeHead { None => None, Some(th) => Some((v_TreeHead(th), match x.AuditorTreeHead { Some(y) => Some(v_AuditorTreeHead(y)), None => None })) } }
pub proof fn like_FullTreeHead(config: st_PublicConfig) ensures f_FullTreeHead(config).like(e_FullTreeHead()) {}
'''
dec("FullTreeHead",P+"NewFullTreeHead","st_NewFullTreeHead")
enc("FullTreeHead",P+"FullTreeHead.Marshal","st_FullTreeHead_Marshal")
# operations
def vercond(f): return ("Cond<UInt>","Cond { on: req.Version.is_none(), f: UInt { n: 4 } }",f"ov_u32({f})")
std("SearchRequest",[("Last",optnum('u64')),("Label",bts(1)),("Version",optnum('u32'))])
for t in ('u8','u16'):
    rl(t,"BinaryLadderStep",P+"NewBinaryLadderStep",('cs',)); wl(t,"BinaryLadderStep")
nnp=" requires "
def ctpnn(f): return f"(forall|i: int| 0 <= i < {f}.PrefixProofs@.len() ==> psr_nn(#[trigger] {f}.PrefixProofs@[i].Results@))"
std("SearchResponse",[("FullTreeHead",sub("FullTreeHead")),("Version",vercond),("Opening",fixed("opsize(config.Config.Suite)")),("Value",sub("UpdateValue")),("BinaryLadder",lsts(1,"BinaryLadderStep")),("Search",subs("CombinedTreeProof"))],('config','req'),nn=ctp('Search'),eh='''    let ghost mut c1 = buf@;
    let ghost mut c2 = buf@;
    let ghost mut c3 = buf@;
    let ghost mut c4 = buf@;
    let ghost mut c5 = buf@;
    let ghost e = e_SearchResponse();
    let ghost v = v_SearchResponse(x);
//@hint after call st_FullTreeHead_Marshal 1
    proof { c1 = buf@; }
//@hint before call buf_Write 1
    proof { c2 = buf@; }
//@hint after call buf_Write 1
    proof { c3 = buf@; }
//@hint after call st_UpdateValue_Marshal 1
    proof { c4 = buf@; }
//@hint after call st_writeMarshalSlice_u8_BinaryLadderStep 1
    proof { c5 = buf@; }
//@hint after call st_CombinedTreeProof_Marshal 1
    proof { assert(c1 + Seq::<u8>::empty() =~= c1); lemma_cat(e.1.1.1.1.0, e.1.1.1.1.1, v.1.1.1.1.0, v.1.1.1.1.1, c4, c5, buf@, RES.is_some()); lemma_cat(e.1.1.1.0, e.1.1.1.1, v.1.1.1.0, v.1.1.1.1, c3, c4, buf@, RES.is_some()); lemma_cat(e.1.1.0, e.1.1.1, v.1.1.0, v.1.1.1, c2, c3, buf@, RES.is_some()); lemma_cat(e.1.0, e.1.1, v.1.0, v.1.1, c1, c2, buf@, RES.is_some()); lemma_cat(e.0, e.1, v.0, v.1, old(buf_r)@, c1, buf@, RES.is_some()); }
''')
rl('u8',"MonitorMapEntry",P+"NewMonitorMapEntry",()); wl('u8',"MonitorMapEntry")
std("ContactMonitorRequest",[("Last",optnum('u64')),("Label",bts(1)),("Entries",lst(1,"MonitorMapEntry"))])
std("ContactMonitorResponse",[("FullTreeHead",sub("FullTreeHead")),("Monitor",subs("CombinedTreeProof"))],('config',),nn=ctp('Monitor'))
std("OwnerInitRequest",[("Last",optnum('u64')),("Label",bts(1)),("Start",num(8))])
std("OwnerInitResponse",[("FullTreeHead",sub("FullTreeHead")),("GreatestVersions",nums(1,'u32')),("BinaryLadder",lsts(2,"BinaryLadderStep")),("Init",subs("CombinedTreeProof"))],('config',),nn=ctp('Init'))
std("OwnerMonitorRequest",[("Last",optnum('u64')),("Label",bts(1)),("Entries",lst(1,"MonitorMapEntry")),("Start",num(8)),("GreatestVersion",optnum('u32'))])
std("OwnerMonitorResponse",[("FullTreeHead",sub("FullTreeHead")),("Monitor",subs("CombinedTreeProof"))],('config',),nn=ctp('Monitor'))
std("UpdateRequest",[("Last",optnum('u64')),("Label",bts(1)),("GreatestVersion",optnum('u32')),("Values",lst(1,"LabelValue"))])
rl('u8',"UpdateValue",P+"NewUpdateValue",('config',)); wl('u8',"UpdateValue")
rl('u8',"UpdateInfo",P+"NewUpdateInfo",('config',)); wl('u8',"UpdateInfo")
std("ManagerUpdateRequest",[("Last",optnum('u64')),("Label",bts(1)),("GreatestVersion",optnum('u32')),("SignedVersion",num(4)),("Values",lst(1,"UpdateValue"))],('config',))
std("UpdateResponse",[("FullTreeHead",sub("FullTreeHead")),("Position",num(8)),("Values",lst(1,"LabelValue")),("Info",lst(1,"UpdateInfo")),("BinaryLadder",lsts(1,"BinaryLadderStep")),("Update",subs("CombinedTreeProof"))],('config',),nn=ctp('Update'),eh='''    let ghost mut c1 = buf@;
    let ghost mut c2 = buf@;
    let ghost mut c3 = buf@;
    let ghost mut c4 = buf@;
    let ghost mut c5 = buf@;
    let ghost e = e_UpdateResponse();
    let ghost v = v_UpdateResponse(x);
//@hint after call st_FullTreeHead_Marshal 1
    proof { c1 = buf@; }
//@hint after call st_writeNumeric_u64 1
    proof { c2 = buf@; }
//@hint after call st_writeMarshalSlice_u8_LabelValue 1
    proof { c3 = buf@; }
//@hint after call st_writeMarshalSlice_u8_UpdateInfo 1
    proof { c4 = buf@; }
//@hint after call st_writeMarshalSlice_u8_BinaryLadderStep 1
    proof { c5 = buf@; }
//@hint after call st_CombinedTreeProof_Marshal 1
    proof { lemma_cat(e.1.1.1.1.0, e.1.1.1.1.1, v.1.1.1.1.0, v.1.1.1.1.1, c4, c5, buf@, RES.is_some()); lemma_cat(e.1.1.1.0, e.1.1.1.1, v.1.1.1.0, v.1.1.1.1, c3, c4, buf@, RES.is_some()); lemma_cat(e.1.1.0, e.1.1.1, v.1.1.0, v.1.1.1, c2, c3, buf@, RES.is_some()); lemma_cat(e.1.0, e.1.1, v.1.0, v.1.1, c1, c2, buf@, RES.is_some()); lemma_cat(e.0, e.1, v.0, v.1, old(buf_r)@, c1, buf@, RES.is_some()); }
''')
# what is signed, committed to or evaluated
def encOnly(X,fields,ctx=()):
    decl(X,fields,ctx); enc(X,P+X+".Marshal",f"st_{X}_Marshal")
encOnly("CommitmentValue",[("Label",bts(1)),("Version",num(4)),("Update",sub("UpdateValue"))],('config',))
encOnly("VrfInput",[("Label",bts(1)),("Version",num(4))])
# third-party and client-side structures
S['PrefixEntry']=dict(ty="F_PrefixEntry",call="f_PrefixEntry(cs)",ctx=('cs',),rust="px_Entry")
decl("PrefixEntry",[("VrfOutput",fixed(H)),("Commitment",fixed(H))],('cs',),rust="px_Entry")
dec("PrefixEntry",P+"newPrefixEntry","st_newPrefixEntry")
enc("PrefixEntry",P+"marshalPrefixEntry","st_marshalPrefixEntry")
rl('u16',"PrefixEntry",P+"newPrefixEntry",('cs',))
o+=writelist(f"{P}writeFuncSlice[u16,px_Entry]#{P}marshalPrefixEntry","st_writeFuncSlice_u16_PrefixEntry",'u16',"px_Entry","vs_PrefixEntry","e_PrefixEntry()","v_PrefixEntry(elem)")
std("AuditorUpdate",[("Timestamp",num(8)),("Added",lst(2,"PrefixEntry")),("Removed",lst(2,"PrefixEntry")),("Proof",sub("PrefixProof"))],('cs',),nn=lambda x:f"psr_nn({x}.Proof.Results@)")
std("IndexedLogEntry",[("Position",num(8)),("LogEntry",sub("LogEntry"))],('cs',))
std("RetainedVersion",[("Version",num(4)),("VrfOutput",fixed(H)),("Commitment",optfixed(H))],('cs',))
std("LabelOwnerState",[("Starting",num(8)),("VerAtStarting",lambda f:("UInt","UInt { n: 8 }",f"u64_of({f})")),("UpcomingVers",nums(4,'u64'))])
rl('u32',"MonitorMapEntry",P+"NewMonitorMapEntry",()); wl('u32',"MonitorMapEntry")
rl('u32',"RetainedVersion",P+"NewRetainedVersion",('cs',)); wl('u32',"RetainedVersion")
std("ClientLabelState",[("Contact",lst(4,"MonitorMapEntry")),("Owner",optsub("LabelOwnerState")),("Versions",lst(4,"RetainedVersion"))],('cs',))
o+="pub open spec fn u64_of(x: i64) -> int { x as int % 0x1_0000_0000_0000_0000 }\n"

# client state: the log entries are a map, written in some order
OTHER|={'ClientStateWire','InsertedVrfOutput'}
rl('u8',"IndexedLogEntry",P+"NewIndexedLogEntry",('cs',)); wl('u8',"IndexedLogEntry")
o+='''pub type F_ClientState = (F_TreeHead, (Cond<F_AuditorTreeHead>, (List<Fixed>, List<F_IndexedLogEntry>)));
pub open spec fn f_ClientState(config: st_PublicConfig) -> F_ClientState { (f_TreeHead(), (Cond { on: config.Config.Mode == 3u8, f: f_AuditorTreeHead() }, (List { n: 1, f: Fixed { n: hsize(config.Config.Suite) } }, List { n: 1, f: f_IndexedLogEntry(config.Config.Suite) }))) }
pub open spec fn e_ClientState() -> F_ClientState { f_ClientState(any_config()) }
pub proof fn like_ClientState(config: st_PublicConfig) ensures f_ClientState(config).like(e_ClientState()) {}
// the entries in some order: every position once
pub open spec fn lists(s: Seq<st_IndexedLogEntry>, m: Map<u64, st_LogEntry>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).Position != (#[trigger] s[j]).Position)
    && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).Position) && m[s[i].Position] == s[i].LogEntry)
    && (forall|k: u64| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && s[i].Position == k)
}
pub open spec fn v_ClientState(x: st_ClientState, s: Seq<st_IndexedLogEntry>) -> <F_ClientState as Fmt>::V { (v_TreeHead(x.TreeHead), (match x.AuditorTreeHead { Some(y) => Some(v_AuditorTreeHead(y)), None => None }, (views(x.FullSubtrees@), vs_IndexedLogEntry(s)))) }
pub open spec fn writes_cs(x: st_ClientState, b: B, c: B, err: bool) -> bool { exists|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) && #[trigger] writes(e_ClientState(), v_ClientState(x, s), b, c, err) }
pub open spec fn dup(s: Seq<(int, (int, B))>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 }
pub open spec fn reads_cs(config: st_PublicConfig, b: B, x: st_ClientState, rest: B, err: bool) -> bool { match f_ClientState(config).parse(b) {
    None => err,
    Some((w, r)) => (err <==> dup(w.1.1.1)) && (!err ==> rest == r && exists|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) && #[trigger] v_ClientState(x, s) == w),
} }
//@go tree/transparency/structs.ClientState.Marshal
pub fn st_ClientState_Marshal(x: st_ClientState, buf_r: &mut Buf) -> (r: Option<GoErr>) ensures r.is_none() ==> writes_cs(x, old(buf_r)@, final(buf_r)@, false),
    r.is_some() ==> forall|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) ==> !e_ClientState().fits(#[trigger] v_ClientState(x, s))
//@hint entry
    proof { lemma_pows(); }
//@loop 1
    invariant MAP == x.LogEntries, SEQ@.no_duplicates(), forall|i: int| 0 <= i < SEQ@.len() ==> MAP@.dom().contains(#[trigger] SEQ@[i]),
        entrySlice@.len() == IDX, forall|i: int| 0 <= i < IDX ==> (#[trigger] entrySlice@[i]).Position == SEQ@[i] && entrySlice@[i].LogEntry == MAP@[SEQ@[i]],
    decreases SEQ@.len() - IDX
//@hint after loop 1
    proof { assert(lists(entrySlice@, x.LogEntries@)) by { assert forall|i: int, j: int| 0 <= i < j < entrySlice@.len() implies (#[trigger] entrySlice@[i]).Position != (#[trigger] entrySlice@[j]).Position by { assert(SEQ1@[i] != SEQ1@[j]); } assert forall|k: u64| #[trigger] x.LogEntries@.dom().contains(k) implies exists|i: int| 0 <= i < entrySlice@.len() && entrySlice@[i].Position == k by { assert(SEQ1@.contains(k)); let i = SEQ1@.index_of(k); assert(entrySlice@[i].Position == k); } } }
//@hint after loop 1
    proof { lemma_lists_len(entrySlice@, x.LogEntries@); assert forall|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) implies s.len() == entrySlice@.len() by { lemma_lists_len(s, x.LogEntries@); } assert forall|s: Seq<st_IndexedLogEntry>, i: int| 0 <= i < s.len() implies #[trigger] e_IndexedLogEntry().fits(vs_IndexedLogEntry(s)[i]) by { } }
//@hint return 4
    proof { if ret.is_none() { assert(writes(e_ClientState(), v_ClientState(x, entrySlice@), old(buf_r)@, buf@, false)); } }
//@end
//@go tree/transparency/structs.NewClientState
pub fn st_NewClientState(config: st_PublicConfig, buf_r: &mut Buf) -> (r: (st_ClientState, Option<GoErr>)) ensures reads_cs(config, old(buf_r)@, r.0, final(buf_r)@, r.1.is_some())
//@loop 1
    invariant SEQ == entrySlice, !logEntries.nil@, lists(entrySlice@.subrange(0, IDX as int), logEntries@),
    decreases SEQ@.len() - IDX
//@hint entry
    let ghost w = f_ClientState(config).parse(buf@).unwrap().0;
//@hint before loop 1
    proof { assert(lists(entrySlice@.subrange(0, 0), logEntries@)); assert(w.1.1.1 == vs_IndexedLogEntry(entrySlice@)); }
//@hint loop 1 top
    let ghost m0 = logEntries@;
    proof { let t = entrySlice@.subrange(0, IDX1 - 1); if m0.dom().contains(entry.Position) { let i = choose|i: int| 0 <= i < t.len() && t[i].Position == entry.Position; assert(w.1.1.1[i].0 == w.1.1.1[IDX1 - 1].0); assert(dup(w.1.1.1)); } }
//@hint loop 1 bottom
    proof { lemma_lists_push(entrySlice@.subrange(0, IDX1 - 1), m0, entry); assert(entrySlice@.subrange(0, IDX1 as int) =~= entrySlice@.subrange(0, IDX1 - 1).push(entry)); }
//@hint after loop 1
    proof { assert(entrySlice@.subrange(0, entrySlice@.len() as int) =~= entrySlice@); if dup(w.1.1.1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < w.1.1.1.len() && (#[trigger] w.1.1.1[i]).0 == (#[trigger] w.1.1.1[j]).0; assert(entrySlice@[i].Position == entrySlice@[j].Position); } }
//@hint return 6
    proof { assert(v_ClientState(ret.0, entrySlice@) == w); }
//@end
pub proof fn lemma_lists_len(s: Seq<st_IndexedLogEntry>, m: Map<u64, st_LogEntry>) requires lists(s, m) ensures s.len() == m.dom().len()
{ let p = Seq::new(s.len(), |i: int| s[i].Position); assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j { assert(s[i].Position != s[j].Position); } else { assert(s[j].Position != s[i].Position); } } } p.unique_seq_to_set(); assert(p.to_set() =~= m.dom()) by { assert forall|k: u64| p.to_set().contains(k) == m.dom().contains(k) by { if p.to_set().contains(k) { let i = p.index_of(k); assert(s[i].Position == k); } if m.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i].Position == k; assert(p[i] == k); } } } }
pub proof fn lemma_lists_push(t: Seq<st_IndexedLogEntry>, m: Map<u64, st_LogEntry>, e: st_IndexedLogEntry) requires lists(t, m), !m.dom().contains(e.Position) ensures lists(t.push(e), m.insert(e.Position, e.LogEntry))
{ let u = t.push(e); let n = m.insert(e.Position, e.LogEntry); assert forall|k: u64| #[trigger] n.dom().contains(k) implies exists|i: int| 0 <= i < u.len() && u[i].Position == k by { if k == e.Position { assert(u[t.len() as int].Position == k); } else { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < t.len() && t[i].Position == k; assert(u[i].Position == k); } } }
// C14 for client state: the same heads, subtrees and entries come back.
pub proof fn prop_cs_roundtrip(config: st_PublicConfig, x: st_ClientState, bytes: B, y: st_ClientState, rest: B, tail: B, err: bool)
    requires writes_cs(x, Seq::empty(), bytes, false), forall|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) ==> #[trigger] f_ClientState(config).valid(v_ClientState(x, s)), reads_cs(config, bytes + tail, y, rest, err)
    ensures !err, rest == tail, v_TreeHead(y.TreeHead) == v_TreeHead(x.TreeHead), views(y.FullSubtrees@) == views(x.FullSubtrees@), x.AuditorTreeHead.is_some() == y.AuditorTreeHead.is_some(), x.AuditorTreeHead.is_some() ==> v_AuditorTreeHead(x.AuditorTreeHead.unwrap()) == v_AuditorTreeHead(y.AuditorTreeHead.unwrap()),
        x.LogEntries@.dom() =~= y.LogEntries@.dom(), forall|k: u64| #[trigger] x.LogEntries@.dom().contains(k) ==> v_LogEntry(x.LogEntries@[k]) == v_LogEntry(y.LogEntries@[k])
{
    let f = f_ClientState(config); let s = choose|s: Seq<st_IndexedLogEntry>| lists(s, x.LogEntries@) && #[trigger] writes(e_ClientState(), v_ClientState(x, s), Seq::empty(), bytes, false);
    let v = v_ClientState(x, s); f.roundtrip(v, tail); f.same(e_ClientState(), v); assert(Seq::<u8>::empty() + f.enc(v) =~= f.enc(v));
    if dup(v.1.1.1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < v.1.1.1.len() && (#[trigger] v.1.1.1[i]).0 == (#[trigger] v.1.1.1[j]).0; assert(s[i].Position != s[j].Position); }
    let u = choose|u: Seq<st_IndexedLogEntry>| lists(u, y.LogEntries@) && #[trigger] v_ClientState(y, u) == v;
    assert(u.len() == s.len()) by { assert(vs_IndexedLogEntry(u).len() == vs_IndexedLogEntry(s).len()); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).Position == u[i].Position && v_LogEntry(s[i].LogEntry) == v_LogEntry(u[i].LogEntry) by { assert(vs_IndexedLogEntry(u)[i] == vs_IndexedLogEntry(s)[i]); }
    assert forall|k: u64| x.LogEntries@.dom().contains(k) == y.LogEntries@.dom().contains(k) && (x.LogEntries@.dom().contains(k) ==> v_LogEntry(x.LogEntries@[k]) == v_LogEntry(y.LogEntries@[k])) by {
        if x.LogEntries@.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i].Position == k; assert(y.LogEntries@.dom().contains(u[i].Position)); }
        if y.LogEntries@.dom().contains(k) { let i = choose|i: int| 0 <= i < u.len() && u[i].Position == k; assert(s[i].Position == k); }
    }
}
'''

# auditor state: the number of subtrees and timestamps follows from the tree size
o+='''pub uninterp spec fn ones(n: u64) -> int;
pub uninterp spec fn flen(n: u64) -> int;
//@ext math/bits.OnesCount64
pub fn bits_OnesCount64(n: u64) -> (r: i64) ensures r == ones(n), 0 <= r <= 64
//@end
//@ext tree/transparency/math.Frontier
pub fn tm_Frontier(n: u64) -> (r: Slice<u64>) requires n > 0 ensures r@.len() == flen(n), flen(n) <= 64
//@end
pub type F_Inserted = (UInt, Fixed);
pub type F_AuditorTail = (Rep<Fixed>, (Rep<UInt>, (Fixed, List<F_Inserted>)));
pub open spec fn f_Inserted(cs: Suite) -> F_Inserted { (UInt { n: 8 }, Fixed { n: hsize(cs) }) }
pub open spec fn f_AuditorTail(cs: Suite, n: int) -> F_AuditorTail { (Rep { k: ones(n as u64), f: Fixed { n: hsize(cs) } }, (Rep { k: flen(n as u64), f: UInt { n: 8 } }, (Fixed { n: hsize(cs) }, List { n: 2, f: f_Inserted(cs) }))) }
pub struct F_AuditorState { pub cs: Suite }
impl Fmt for F_AuditorState {
    type V = (<F_AuditorTreeHead as Fmt>::V, <F_AuditorTail as Fmt>::V);
    open spec fn enc(self, v: Self::V) -> B { f_AuditorTreeHead().enc(v.0) + f_AuditorTail(self.cs, v.0.1.0).enc(v.1) }
    open spec fn pos(self) -> bool { false }
    proof fn progress(self, b: B) { }
    open spec fn fits(self, v: Self::V) -> bool { f_AuditorTreeHead().fits(v.0) && f_AuditorTail(self.cs, v.0.1.0).fits(v.1) }
    open spec fn valid(self, v: Self::V) -> bool { f_AuditorTreeHead().valid(v.0) && v.0.1.0 > 0 && f_AuditorTail(self.cs, v.0.1.0).valid(v.1) }
    open spec fn parse(self, b: B) -> Option<(Self::V, B)> { match f_AuditorTreeHead().parse(b) { None => None, Some((x, r)) => if x.1.0 == 0 { None } else { match f_AuditorTail(self.cs, x.1.0).parse(r) { None => None, Some((y, s)) => Some(((x, y), s)) } } } }
    proof fn roundtrip(self, v: Self::V, rest: B) { let t = f_AuditorTail(self.cs, v.0.1.0); t.roundtrip(v.1, rest); f_AuditorTreeHead().roundtrip(v.0, t.enc(v.1) + rest); assert(f_AuditorTreeHead().enc(v.0) + (t.enc(v.1) + rest) =~= self.enc(v) + rest); }
    open spec fn like(self, g: Self) -> bool { true }
    proof fn same(self, g: Self, v: Self::V) { let n = v.0.1.0; assert(f_AuditorTail(self.cs, n).like(f_AuditorTail(g.cs, n))); f_AuditorTail(self.cs, n).same(f_AuditorTail(g.cs, n), v.1); }
    proof fn canonical(self, b: B) { f_AuditorTreeHead().canonical(b); match f_AuditorTreeHead().parse(b) { None => {} Some((x, r)) => { let t = f_AuditorTail(self.cs, x.1.0); t.canonical(r); match t.parse(r) { None => {} Some((y, s)) => { f_AuditorTreeHead().roundtrip(x, r); assert(b =~= self.enc((x, y)) + s); } } } } }
}
pub open spec fn e_AuditorState() -> F_AuditorState { F_AuditorState { cs: any_cs() } }
pub open spec fn v_Inserted(x: au_InsertedVrfOutput) -> <F_Inserted as Fmt>::V { (x.Pos as int, x.VrfOutput@) }
pub open spec fn vs_Inserted(s: Seq<au_InsertedVrfOutput>) -> Seq<<F_Inserted as Fmt>::V> { Seq::new(s.len(), |i: int| v_Inserted(s[i])) }
pub open spec fn v_AuditorState(x: au_AuditorState) -> <F_AuditorState as Fmt>::V { (v_AuditorTreeHead(x.TreeHead), (views(x.FullSubtrees@), (nums_u64(x.Timestamps@), (x.PrefixTree@, vs_Inserted(x.Inserted@))))) }
'''
A="e_bytes()"
o+='''//@go tree/transparency/auditor.AuditorState.Marshal
pub fn au_AuditorState_Marshal(x: Option<au_AuditorState>) -> (r: (Slice<u8>, Option<GoErr>)) requires x.is_some() ensures writes(e_AuditorState(), v_AuditorState(x.unwrap()), Seq::empty(), r.0@, r.1.is_some())
//@hint entry
    let ghost y = x.unwrap();
    let ghost mut c1 = Seq::<u8>::empty();
    let ghost mut c2 = c1;
    let ghost mut c3 = c1;
    let ghost w = v_AuditorState(y);
    proof { lemma_pows(); assert forall|v: Seq<<F_Inserted as Fmt>::V>| #![trigger f_Inserted(any_cs()).fits(v[0])] true by {} }
//@hint before loop 1
    proof { c1 = buf@; assert(views(y.FullSubtrees@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 1
    invariant SEQ == y.FullSubtrees, buf@ == c1 + enc_all(e_bytes(), views(y.FullSubtrees@.subrange(0, IDX as int))),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    proof { let w = views(y.FullSubtrees@.subrange(0, IDX1 as int)); assert(w.drop_last() =~= views(y.FullSubtrees@.subrange(0, IDX1 - 1))); assert(w.last() == subtree@); }
//@hint after loop 1
    proof { assert(y.FullSubtrees@.subrange(0, y.FullSubtrees@.len() as int) =~= y.FullSubtrees@); c2 = buf@; }
//@hint before loop 2
    proof { assert(nums_u64(y.Timestamps@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 2
    invariant SEQ == y.Timestamps, buf@ == c2 + enc_all(UInt { n: 8 }, nums_u64(y.Timestamps@.subrange(0, IDX as int))),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    proof { let w = nums_u64(y.Timestamps@.subrange(0, IDX2 as int)); assert(w.drop_last() =~= nums_u64(y.Timestamps@.subrange(0, IDX2 - 1))); assert(w.last() == timestamp as int); }
//@hint after loop 2
    proof { assert(y.Timestamps@.subrange(0, y.Timestamps@.len() as int) =~= y.Timestamps@); }
//@hint before loop 3
    proof { c3 = buf@; assert(vs_Inserted(y.Inserted@.subrange(0, 0)) =~= Seq::empty()); assert(buf@ + Seq::<u8>::empty() =~= buf@); }
//@loop 3
    invariant SEQ == y.Inserted, buf@ == c3 + enc_all(f_Inserted(any_cs()), vs_Inserted(y.Inserted@.subrange(0, IDX as int))),
    decreases SEQ@.len() - IDX
//@hint loop 3 top
    proof { let w = vs_Inserted(y.Inserted@.subrange(0, IDX3 as int)); assert(w.drop_last() =~= vs_Inserted(y.Inserted@.subrange(0, IDX3 - 1))); assert(w.last() == v_Inserted(inserted)); }
//@hint after loop 3
    proof { assert(y.Inserted@.subrange(0, y.Inserted@.len() as int) =~= y.Inserted@); assert(Seq::<u8>::empty() + buf@ =~= buf@); }
//@end
//@go tree/transparency/auditor.NewAuditorState
pub fn au_NewAuditorState(cs: Suite, buf_r: &mut Buf) -> (r: (Option<au_AuditorState>, Option<GoErr>)) ensures reads(F_AuditorState { cs: cs }, old(buf_r)@, v_AuditorState(r.0.unwrap()), final(buf_r)@, r.1.is_some()), r.1.is_none() ==> r.0.is_some()
//@attr alloc buf@.len() + 0xffff
//@hint entry
    let ghost b0 = buf@;
    let ghost mut b1 = b0;
    let ghost mut b2 = b0;
    let ghost mut b3 = b0;
    let ghost mut b4 = b0;
    let ghost fa = Fixed { n: hsize(cs) };
    let ghost fb = UInt { n: 8 };
    let ghost fc = f_Inserted(cs);
    proof { lemma_pows(); }
//@hint before loop 1
    proof { b1 = buf@; assert(views(fullSubtrees@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 1
    invariant fullSubtrees@.len() == SEQ@.len(), parse_all(fa, IDX as nat, b1) == Some((views(fullSubtrees@.subrange(0, IDX as int)), buf@)),
    decreases SEQ@.len() - IDX
//@hint loop 1 top
    let ghost out0 = fullSubtrees;
    proof { if parse_all(fa, IDX1 as nat, b1).is_none() { lemma_all_none(fa, IDX1 as nat, SEQ1@.len(), b1); } }
//@hint loop 1 bottom
    proof { assert(views(fullSubtrees@.subrange(0, IDX1 as int)) =~= views(out0@.subrange(0, IDX1 - 1)).push(fullSubtree@)); }
//@hint after loop 1
    proof { assert(fullSubtrees@.subrange(0, fullSubtrees@.len() as int) =~= fullSubtrees@); b2 = buf@; }
//@hint before loop 2
    proof { assert(nums_u64(timestamps@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 2
    invariant timestamps@.len() == SEQ@.len(), parse_all(fb, IDX as nat, b2) == Some((nums_u64(timestamps@.subrange(0, IDX as int)), buf@)),
    decreases SEQ@.len() - IDX
//@hint loop 2 top
    let ghost out0 = timestamps;
    proof { if parse_all(fb, IDX2 as nat, b2).is_none() { lemma_all_none(fb, IDX2 as nat, SEQ2@.len(), b2); } }
//@hint loop 2 bottom
    proof { assert(nums_u64(timestamps@.subrange(0, IDX2 as int)) =~= nums_u64(out0@.subrange(0, IDX2 - 1)).push(timestamp as int)); }
//@hint after loop 2
    proof { assert(timestamps@.subrange(0, timestamps@.len() as int) =~= timestamps@); b3 = buf@; }
//@hint before loop 3
    proof { b4 = buf@; assert(vs_Inserted(inserted@.subrange(0, 0)) =~= Seq::empty()); }
//@loop 3
    invariant inserted@.len() == SEQ, parse_all(fc, IDX as nat, b4) == Some((vs_Inserted(inserted@.subrange(0, IDX as int)), buf@)),
    decreases SEQ - IDX
//@hint loop 3 top
    let ghost out0 = inserted;
    proof { if parse_all(fc, IDX3 as nat, b4).is_none() { lemma_all_none(fc, IDX3 as nat, SEQ3 as nat, b4); } }
//@hint loop 3 bottom
    proof { assert(vs_Inserted(inserted@.subrange(0, IDX3 as int)) =~= vs_Inserted(out0@.subrange(0, IDX3 - 1)).push((pos as int, vrfOutput@))); }
//@hint after loop 3
    proof { assert(inserted@.subrange(0, inserted@.len() as int) =~= inserted@); }
//@end
'''

# configuration and the messages that are signed
o+='''pub uninterp spec fn suite_id(cs: Suite) -> u16;
pub uninterp spec fn vrf_bytes(k: VrfPub) -> Seq<u8>;
//@ext crypto/suites.CipherSuite.Id
pub fn suite_Id(cs: Suite) -> (r: u16) ensures r == suite_id(cs)
//@end
//@ext crypto/vrf.PublicKey.Bytes
pub fn vrf_Bytes(k: VrfPub) -> (r: Slice<u8>) ensures r@ == vrf_bytes(k)
//@end
pub type F_Keys = (Bytes, Bytes);
pub type F_Params = (UInt, (UInt, (UInt, Opt<UInt>)));
pub type F_PublicConfig = (UInt, Tag3<(F_Keys, F_Params), (F_Keys, (Bytes, F_Params)), (F_Keys, ((UInt, (UInt, Bytes)), F_Params))>);
pub open spec fn f_Keys() -> F_Keys { (Bytes { n: 2 }, Bytes { n: 2 }) }
pub open spec fn f_Params() -> F_Params { (UInt { n: 8 }, (UInt { n: 8 }, (UInt { n: 8 }, Opt { f: UInt { n: 8 } }))) }
pub open spec fn f_PublicConfig() -> F_PublicConfig { (UInt { n: 2 }, Tag3 { a: 1, c: 2, d: 3, f: (f_Keys(), f_Params()), g: (f_Keys(), (Bytes { n: 2 }, f_Params())), h: (f_Keys(), ((UInt { n: 8 }, (UInt { n: 8 }, Bytes { n: 2 })), f_Params())) }) }
pub open spec fn v_Keys(x: st_PublicConfig) -> <F_Keys as Fmt>::V { (key_bytes(x.SignatureKey), vrf_bytes(x.VrfKey)) }
pub open spec fn v_Params(x: st_Config) -> <F_Params as Fmt>::V { (x.MaxAhead as int, (x.MaxBehind as int, (x.ReasonableMonitoringWindow as int, if x.MaximumLifetime == 0 { None } else { Some(x.MaximumLifetime as int) }))) }
pub open spec fn v_PublicConfig(x: st_PublicConfig) -> <F_PublicConfig as Fmt>::V { (suite_id(x.Config.Suite) as int,
    if x.Config.Mode == 1 { Or3::A((v_Keys(x), v_Params(x.Config))) }
    else if x.Config.Mode == 2 { Or3::C((v_Keys(x), (key_bytes(x.Config.LeafPublicKey), v_Params(x.Config)))) }
    else { Or3::D((v_Keys(x), ((x.Config.MaxAuditorLag as int, (x.Config.AuditorStartPos as int, key_bytes(x.Config.AuditorPublicKey))), v_Params(x.Config)))) }) }
pub open spec fn cfg_ok(x: st_PublicConfig) -> bool { 1 <= x.Config.Mode <= 3 && !x.SignatureKey.nil@ && (x.Config.Mode == 2 ==> !x.Config.LeafPublicKey.nil@) && (x.Config.Mode == 3 ==> !x.Config.AuditorPublicKey.nil@) }
//@go tree/transparency/structs.PublicConfig.Marshal
pub fn st_PublicConfig_Marshal(x: st_PublicConfig, buf_r: &mut Buf) -> (r: Option<GoErr>) requires cfg_ok(x) ensures writes(f_PublicConfig(), v_PublicConfig(x), old(buf_r)@, final(buf_r)@, r.is_some())
//@hint entry
    proof { lemma_pows(); lemma_one(x.Config.Mode as int); }
//@end
'''
S['PublicConfig']=dict(ty="F_PublicConfig",call="f_PublicConfig()",ctx=(),rust="st_PublicConfig")
def tbs(X,fields,ctx=()):
    decl(X,[("Config",sub("PublicConfig"))]+fields,ctx); enc(X,P+X+".Marshal",f"st_{X}_Marshal",req="requires cfg_ok(x.Config) ")
tbs("UpdateTBS",[("Label",bts(1)),("Version",num(4)),("Value",bts(4))])
tbs("TreeHeadTBS",[("TreeSize",num(8)),("Root",fixed(H))],('cs',))
tbs("AuditorTreeHeadTBS",[("Timestamp",num(8)),("TreeSize",num(8)),("Root",fixed(H))],('cs',))
o+='''// C14: two configurations with one encoding agree on everything encoded; so
// do two messages to be signed (their keys and suites by their encodings).
pub proof fn prop_signed_injective(cs: Suite, x: st_TreeHeadTBS, y: st_TreeHeadTBS)
    requires f_TreeHeadTBS(cs).valid(v_TreeHeadTBS(x)), f_TreeHeadTBS(cs).valid(v_TreeHeadTBS(y)), e_TreeHeadTBS().enc(v_TreeHeadTBS(x)) == e_TreeHeadTBS().enc(v_TreeHeadTBS(y))
    ensures x.TreeSize == y.TreeSize, x.Root@ == y.Root@, cfg_ok(x.Config) && cfg_ok(y.Config) ==> x.Config.Config.Mode == y.Config.Config.Mode, suite_id(x.Config.Config.Suite) == suite_id(y.Config.Config.Suite), x.Config.Config.MaximumLifetime == y.Config.Config.MaximumLifetime
{ like_TreeHeadTBS(cs); prop_injective(f_TreeHeadTBS(cs), e_TreeHeadTBS(), v_TreeHeadTBS(x), v_TreeHeadTBS(y)); }
'''

NN=[X for X in S if X not in NULLABLE and X not in OTHER]
o=o.replace('NONNIL',' '.join([P+X for X in NN]+['tree/prefix.PrefixProof','tree/prefix.Entry',P+'ClientState',P+'PublicConfig']))
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','specs','codec.vrs'),'w').write(o)
