//@use dist.vrs
// ---- C12: version searches
//@global tree/transparency/algorithms.ErrLabelNotFound err_const(Ghost(11int))
//@global tree/transparency/algorithms.ErrLabelExpired err_const(Ghost(12int))
pub open spec fn not_found() -> Option<GoErr> { Some(GoErr { code: Ghost(11) }) }
pub open spec fn label_expired() -> Option<GoErr> { Some(GoErr { code: Ghost(12) }) }
// entry x was asked for a ladder for ver since the log had length k, and res was the answer
pub open spec fn sought(k: int, b: al_DataProvider, ver: u32, x: int, res: int) -> bool {
    exists|i: int| 0 <= k <= i < b.handle.log@.len() && is_search(#[trigger] b.handle.log@[i], ver, x, res)
}
pub open spec fn is_search(e: Ev, ver: u32, x: int, res: int) -> bool { match e { Ev::Search(y, v, omit, _, q) => y == x && v == ver && omit && q == res, _ => false } }
pub proof fn sought_ext(k: int, a: al_DataProvider, b: al_DataProvider, ver: u32) requires ext_of(a, b) ensures forall|x: int, res: int| #[trigger] sought(k, a, ver, x, res) ==> sought(k, b, ver, x, res)
{
    assert forall|x: int, res: int| #[trigger] sought(k, a, ver, x, res) implies sought(k, b, ver, x, res) by {
        let i = choose|i: int| 0 <= k <= i < a.handle.log@.len() && is_search(#[trigger] a.handle.log@[i], ver, x, res); assert(b.handle.log@[i] == a.handle.log@[i]); }
}
pub proof fn sought_now(k: int, a: al_DataProvider, b: al_DataProvider, ver: u32, x: u64, res: int)
    requires asked(a, b, Ev::Search(x, ver, true, root_at(b, x), res)), a.handle.log@.len() >= k >= 0
    ensures sought(k, b, ver, x as int, res)
{ let i = b.handle.log@.len() - 1; assert(is_search(b.handle.log@[i], ver, x as int, res)); }
// nothing was asked for that the search has no business with: every ladder is
// for ver, and says what a says
pub open spec fn answers(k: int, b: al_DataProvider, a: spec_fn(int) -> int) -> bool {
    forall|i: int| 0 <= k <= i < b.handle.log@.len() ==> match #[trigger] b.handle.log@[i] { Ev::Search(y, _, _, _, q) => a(y as int) == q, _ => true }
}
pub open spec fn only_for(k: int, b: al_DataProvider, ver: u32) -> bool {
    forall|i: int| 0 <= k <= i < b.handle.log@.len() ==> match #[trigger] b.handle.log@[i] { Ev::Search(y, v, omit, _, _) => v == ver && omit, Ev::Incl(_, vs, _) => vs == seq![ver], Ev::Ts(_, _) => true, _ => false }
}
pub proof fn answers_ext(k: int, a: al_DataProvider, b: al_DataProvider, f: spec_fn(int) -> int) requires ext_of(a, b), answers(k, b, f), ensures answers(k, a, f)
{ assert forall|i: int| 0 <= k <= i < a.handle.log@.len() implies match #[trigger] a.handle.log@[i] { Ev::Search(y, _, _, _, q) => f(y as int) == q, _ => true } by { assert(b.handle.log@[i] == a.handle.log@[i]); } }
pub proof fn answers_now(k: int, a: al_DataProvider, b: al_DataProvider, ver: u32, x: u64, res: int, f: spec_fn(int) -> int)
    requires asked(a, b, Ev::Search(x, ver, true, root_at(b, x), res)), a.handle.log@.len() >= k >= 0, answers(k, b, f)
    ensures f(x as int) == res
{ let i = b.handle.log@.len() - 1; assert(is_search(b.handle.log@[i], ver, x as int, res)); }
pub proof fn only_now(k: int, a: al_DataProvider, b: al_DataProvider, ver: u32, e: Ev)
    requires k <= a.handle.log@.len(), only_for(k, a, ver), ext_of(a, b), asked(a, b, e) || ts_only(a, b), match e { Ev::Search(y, v, omit, _, _) => v == ver && omit, Ev::Incl(_, vs, _) => vs == seq![ver], Ev::Ts(_, _) => true, _ => false }
    ensures only_for(k, b, ver)
{
    assert forall|i: int| 0 <= k <= i < b.handle.log@.len() implies match #[trigger] b.handle.log@[i] { Ev::Search(y, v, omit, _, _) => v == ver && omit, Ev::Incl(_, vs, _) => vs == seq![ver], Ev::Ts(_, _) => true, _ => false } by {
        if i < a.handle.log@.len() { assert(b.handle.log@[i] == a.handle.log@[i]); } else if i < b.handle.log@.len() - 1 || ts_only(a, b) { assert(b.handle.log@[i] is Ts); } }
}
// ---- Section 6.3: the search starts at the rightmost distinguished entry, or
// the root if there is none
pub open spec fn starts_at(c: st_PublicConfig, n: int, dp: al_DataProvider, st: int) -> bool {
    exists|d: Option<u64>| st == start_pos(n, d) && #[trigger] last_dist(c, n, dp, d)
}
pub open spec fn start_pos(n: int, d: Option<u64>) -> int { match d { Some(y) => y as int, None => root_of(n) } }
pub open spec fn last_dist(c: st_PublicConfig, n: int, dp: al_DataProvider, d: Option<u64>) -> bool { forall|f: spec_fn(int) -> int| #[trigger] agree(dp.timestamps@, f) ==> rightmost_is(c, n, f, n, d) }
pub open spec fn fits_greatest(k: int, b: al_DataProvider, ver: u32, n: int, st: int, t: int) -> bool {
    &&& spine(t, n) && t >= st && sought(k, b, ver, t, 0) && sought(k, b, ver, n - 1, 0)
    // every entry from there on shows no greater version
    &&& forall|y: int| #[trigger] spine(y, n) && y >= st ==> exists|res: int| res != 1 && #[trigger] sought(k, b, ver, y, res)
    // and t is the first to show it
    &&& forall|y: int| #[trigger] spine(y, n) && st <= y < t ==> exists|res: int| res != 1 && res != 0 && #[trigger] sought(k, b, ver, y, res)
}
//@go tree/transparency/algorithms.GreatestVersionSearch
pub fn al_GreatestVersionSearch(config: st_PublicConfig, ver: u32, n: u64, provider_r: &mut al_DataProvider) -> (r: (u64, Option<GoErr>))
    requires n == 0 || okw(n), wf(*old(provider_r)), !old(provider_r).handle.nil@
    ensures ext_of(*old(provider_r), *final(provider_r)),
        r.1.is_none() ==> n > 0 && good(*old(provider_r), *final(provider_r)) && only_for(old(provider_r).handle.log@.len() as int, *final(provider_r), ver),
        r.1.is_none() ==> exists|st: int| starts_at(config, n as int, *final(provider_r), st) && #[trigger] fits_greatest(old(provider_r).handle.log@.len() as int, *final(provider_r), ver, n as int, st, r.0 as int),
        // every failure has a cause
        r.1.is_some() && n > 0 ==> fails(*old(provider_r), *final(provider_r)) || r.1 == not_found() && ver == 0 && sought(old(provider_r).handle.log@.len() as int, *final(provider_r), ver, n - 1, -1)
            || r.1.unwrap().code@ == 0 && exists|y: int, res: int| spine(y, n as int) && #[trigger] sought(old(provider_r).handle.log@.len() as int, *final(provider_r), ver, y, res) && (res == 1 || y == n - 1 && res != 0 && !(ver == 0 && res == -1)),
//@hint entry
    let ghost p0 = provider; let ghost k = provider.handle.log@.len() as int; let ghost mut st = 0int;
    proof { good_refl(provider); if n > 0 { spine_last(n as int); root_exists(n as int); } }
//@hint before loop 1
    proof { st = x as int; assert(st == start_pos(n as int, rightmostDLE)); assert(last_dist(config, n as int, provider, rightmostDLE)); only_now(k, p0, provider, ver, Ev::Ts(0, 0)); assert(starts_at(config, n as int, provider, st)); }
//@loop 1
    invariant okw(n), wf(provider), good(p0, provider), provider.handle.nil == p0.handle.nil, spine(x as int, n as int), st <= x, k == p0.handle.log@.len(), only_for(k, provider, ver), starts_at(config, n as int, provider, st),
        forall|y: int| #[trigger] spine(y, n as int) && st <= y < x ==> exists|res: int| res != 1 && #[trigger] sought(k, provider, ver, y, res),
        first ==> forall|y: int| #[trigger] spine(y, n as int) && st <= y < x ==> exists|res: int| res != 1 && res != 0 && #[trigger] sought(k, provider, ver, y, res),
        !first ==> spine(terminal as int, n as int) && st <= terminal < x && sought(k, provider, ver, terminal as int, 0) && forall|y: int| #[trigger] spine(y, n as int) && st <= y < terminal ==> exists|res: int| res != 1 && res != 0 && #[trigger] sought(k, provider, ver, y, res),
    decreases n - x
//@hint loop 1 top
    let ghost q0 = provider; let ghost x0 = x as int;
//@hint after call al_GetSearchBinaryLadder 1
    proof {
        good_trans(p0, q0, provider); sought_ext(k, q0, provider, ver);
        assert forall|y: int, res: int| #[trigger] sought(k, q0, ver, y, res) implies sought(k, provider, ver, y, res) by {}
        if RES1.is_none() {
            sought_now(k, q0, provider, ver, x, RES0 as int); only_now(k, q0, provider, ver, Ev::Search(x, ver, true, root_at(provider, x), RES0 as int));
            starts_ext(config, n as int, q0, provider, st);
        }
        assert forall|y: int| #[trigger] spine(y, n as int) && st <= y < x0 implies exists|res: int| res != 1 && #[trigger] sought(k, provider, ver, y, res) by { let res = choose|res: int| res != 1 && #[trigger] sought(k, q0, ver, y, res); assert(sought(k, provider, ver, y, res)); }
        if first {
        assert forall|y: int| #[trigger] spine(y, n as int) && st <= y < x0 implies exists|res: int| res != 1 && res != 0 && #[trigger] sought(k, provider, ver, y, res) by { let res = choose|res: int| res != 1 && res != 0 && #[trigger] sought(k, q0, ver, y, res); assert(sought(k, provider, ver, y, res)); }
        } else {
        assert forall|y: int| #[trigger] spine(y, n as int) && st <= y < terminal implies exists|res: int| res != 1 && res != 0 && #[trigger] sought(k, provider, ver, y, res) by { let res = choose|res: int| res != 1 && res != 0 && #[trigger] sought(k, q0, ver, y, res); assert(sought(k, provider, ver, y, res)); }
        }
        assert forall|y: int| #[trigger] spine(y, n as int) && x0 <= y implies y == x0 || x0 < n - 1 && y >= right_of(x0, n as int) by { if y > x0 { spine_next(x0, y, n as int); } }
        if x < n - 1 { spine_next(x0, n - 1, n as int); }
    }
//@hint before call tm_Right 1
    proof {
        assert forall|y: int| #[trigger] spine(y, n as int) && st <= y < right_of(x0, n as int) implies exists|rs: int| rs != 1 && #[trigger] sought(k, provider, ver, y, rs) by { if y >= x0 { assert(sought(k, provider, ver, y, res as int)); } }
        if first {
        assert forall|y: int| #[trigger] spine(y, n as int) && st <= y < right_of(x0, n as int) implies exists|rs: int| rs != 1 && rs != 0 && #[trigger] sought(k, provider, ver, y, rs) by { if y >= x0 { assert(sought(k, provider, ver, y, res as int)); } }
        }
    }
//@hint return 7
    proof {
        assert(starts_at(config, n as int, provider, st));
        assert forall|y: int| #[trigger] spine(y, n as int) && y >= st implies exists|rs: int| rs != 1 && #[trigger] sought(k, provider, ver, y, rs) by { if y >= x0 { assert(sought(k, provider, ver, y, res as int)); } }
        assert(fits_greatest(k, provider, ver, n as int, st, terminal as int));
        assert(k == old(provider_r).handle.log@.len() as int);
        assert(fits_greatest(old(provider_r).handle.log@.len() as int, provider, ver, n as int, st, ret.0 as int));
        assert(ret.0 == terminal);
        assert(exists|st: int| starts_at(config, n as int, provider, st) && #[trigger] fits_greatest(old(provider_r).handle.log@.len() as int, provider, ver, n as int, st, ret.0 as int));
        
    }
//@end
pub proof fn starts_ext(c: st_PublicConfig, n: int, a: al_DataProvider, b: al_DataProvider, st: int) requires starts_at(c, n, a, st), ext_of(a, b) ensures starts_at(c, n, b, st)
{
    let d = choose|d: Option<u64>| st == start_pos(n, d) && #[trigger] last_dist(c, n, a, d);
    assert forall|f: spec_fn(int) -> int| #[trigger] agree(b.timestamps@, f) implies rightmost_is(c, n, f, n, d) by { agree_ext(a, b, f); }
    assert(last_dist(c, n, b, d));
}
// ---- Section 7.2: f gives the timestamps, a the ladders' answers
pub open spec fn is_incl(e: Ev, x: u64, ver: u32) -> bool { match e { Ev::Incl(y, vs, _) => y == x && vs == seq![ver], _ => false } }
pub enum Fv { At(int), Needs(int), NotFound, Expired }
pub open spec fn has_before(ds: Seq<u64>, t: int) -> bool { exists|i: int| 0 <= i < ds.len() && #[trigger] ds[i] < t }
pub open spec fn fv_end(exp: bool, term: Option<int>, ds: Seq<u64>) -> Fv {
    match term { None => Fv::NotFound, Some(t) => if exp && !has_before(ds, t) { Fv::Expired } else { Fv::Needs(t) } }
}
pub open spec fn fvs(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int, x: int, l: int, r: int, exp: bool, term: Option<int>, ds: Seq<u64>) -> Fv
    decreases lvl(x)
{
    let last = lvl(x) == 0 || x == n - 1;
    if is_exp(c, f(x), f(n - 1)) {
        if last || lvl(right_of(x, n)) >= lvl(x) { fv_end(true, term, ds) } else { fvs(c, n, f, a, right_of(x, n), f(x), r, true, term, ds) }
    } else {
        let ds2 = if is_dist(c, l, r) { ds.push(x as u64) } else { ds };
        let t2 = if a(x) >= 0 && (term.is_none() || x < term.unwrap()) { Some(x) } else { term };
        if a(x) == -1 {
            if last || lvl(right_of(x, n)) >= lvl(x) { fv_end(exp, t2, ds2) } else { fvs(c, n, f, a, right_of(x, n), f(x), r, exp, t2, ds2) }
        } else if a(x) == 1 {
            if lvl(x) == 0 || lvl(left_of(x)) >= lvl(x) { fv_end(exp, t2, ds2) } else { fvs(c, n, f, a, left_of(x), l, f(x), exp, t2, ds2) }
        } else if !exp || has_before(ds2, x + 1) { Fv::At(x) } else { Fv::Expired }
    }
}
pub open spec fn fixed(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int) -> Fv { fvs(c, n, f, a, root_of(n), 0, f(n - 1), false, None, Seq::empty()) }
pub open spec fn fixed_is(k: int, b: al_DataProvider, c: st_PublicConfig, n: int, v: Fv) -> bool {
    forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(b.timestamps@, f) && #[trigger] answers(k, b, a) ==> fixed(c, n, f, a) == v
}
// What the search finds, where the log's timestamps and the ladders' answers
// are in order: the first entry of the log that has the version and is not
// expired -- or one that shows it as its greatest version, met on the way.
pub open spec fn in_order(n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int) -> bool {
    &&& forall|x: int, y: int| #![trigger f(x), f(y)] 0 <= x <= y < n ==> f(x) <= f(y)
    &&& forall|x: int, y: int| #![trigger a(x), a(y)] 0 <= x <= y < n ==> a(x) <= a(y)
    &&& forall|x: int| -1 <= #[trigger] a(x) <= 1
}
pub open spec fn lives(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, y: int) -> bool { 0 <= y < n && !is_exp(c, f(y), f(n - 1)) }
pub open spec fn first_is(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int, term: Option<int>) -> bool {
    match term {
        None => forall|y: int| #[trigger] lives(c, n, f, y) ==> a(y) == -1,
        Some(t) => lives(c, n, f, t) && a(t) >= 0 && forall|y: int| #[trigger] lives(c, n, f, y) && y < t ==> a(y) == -1,
    }
}
pub open spec fn has_expired(c: st_PublicConfig, n: int, f: spec_fn(int) -> int) -> bool { exists|y: int| 0 <= y < n && !#[trigger] lives(c, n, f, y) }
pub open spec fn outcome(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int, v: Fv) -> bool {
    match v {
        Fv::At(t) => lives(c, n, f, t) && a(t) == 0,
        Fv::Needs(t) => first_is(c, n, f, a, Some(t)),
        Fv::NotFound => first_is(c, n, f, a, None),
        Fv::Expired => has_expired(c, n, f) && exists|y: int| #[trigger] lives(c, n, f, y) && a(y) >= 0,
    }
}
pub proof fn fvs_outcome(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int, x: int, l: int, r: int, exp: bool, term: Option<int>, ds: Seq<u64>)
    requires 0 <= x < n, in_order(n, f, a), exp ==> has_expired(c, n, f),
        forall|y: int| #[trigger] lives(c, n, f, y) && y < nl(x) ==> a(y) == -1,
        match term { None => nh(x) >= n, Some(t) => t == nh(x) && lives(c, n, f, t) && a(t) >= 0 },
    ensures outcome(c, n, f, a, fvs(c, n, f, a, x, l, r, exp, term, ds)),
    decreases lvl(x)
{
    lvl_props(x); pw_pos(lvl(x));
    if lvl(x) >= 1 { left_props(x); lvl_props(left_of(x)); if x + 1 < n { right_exists(x, n); lvl_props(right_of(x, n)); pw_pos(lvl(right_of(x, n))); } }
    reveal_with_fuel(fvs, 2);
    let last = lvl(x) == 0 || x == n - 1;
    if is_exp(c, f(x), f(n - 1)) {
        assert(!lives(c, n, f, x));
        assert forall|y: int| #[trigger] lives(c, n, f, y) && y < x + 1 implies a(y) == -1 by { assert(f(y) <= f(x)); }
        if last { if term.is_some() { assert(lives(c, n, f, term.unwrap())); } } else { fvs_outcome(c, n, f, a, right_of(x, n), f(x), r, true, term, ds); }
    } else {
        assert(lives(c, n, f, x));
        let ds2 = if is_dist(c, l, r) { ds.push(x as u64) } else { ds };
        let t2 = if a(x) >= 0 && (term.is_none() || x < term.unwrap()) { Some(x) } else { term };
        if a(x) == -1 {
            assert forall|y: int| #[trigger] lives(c, n, f, y) && y < x + 1 implies a(y) == -1 by { assert(a(y) <= a(x)); }
            if last { if term.is_some() { assert(lives(c, n, f, term.unwrap())); } } else { fvs_outcome(c, n, f, a, right_of(x, n), f(x), r, exp, t2, ds2); }
        } else if a(x) == 1 {
            if lvl(x) == 0 { } else { fvs_outcome(c, n, f, a, left_of(x), l, f(x), exp, t2, ds2); }
        }
    }
}
pub proof fn prop_fixed_search(c: st_PublicConfig, n: int, f: spec_fn(int) -> int, a: spec_fn(int) -> int) requires n >= 1, in_order(n, f, a) ensures outcome(c, n, f, a, fixed(c, n, f, a))
{ root_exists(n); lvl_props(root_of(n)); fvs_outcome(c, n, f, a, root_of(n), 0, f(n - 1), false, None, Seq::empty()); }
pub proof fn fixed_ext(k: int, a: al_DataProvider, b: al_DataProvider, c: st_PublicConfig, n: int, v: Fv) requires ext_of(a, b), fixed_is(k, a, c, n, v) ensures fixed_is(k, b, c, n, v)
{ assert forall|f: spec_fn(int) -> int, g: spec_fn(int) -> int| #[trigger] agree(b.timestamps@, f) && #[trigger] answers(k, b, g) implies fixed(c, n, f, g) == v by { agree_ext(a, b, f); answers_ext(k, a, b, g); } }
pub open spec fn tpos(found: bool, pos: u64) -> Option<int> { if found { Some(pos as int) } else { None } }
//@go tree/transparency/algorithms.FixedVersionSearch
pub fn al_FixedVersionSearch(config: st_PublicConfig, ver: u32, n: u64, provider_r: &mut al_DataProvider) -> (r: (u64, Option<GoErr>))
    requires n == 0 || okw(n), wf(*old(provider_r)), !old(provider_r).handle.nil@
    ensures ext_of(*old(provider_r), *final(provider_r)), n == 0 ==> r.1.is_some(), r.1.is_none() ==> r.0 < n,
        r.1.is_none() ==> good(*old(provider_r), *final(provider_r)) && only_for(old(provider_r).handle.log@.len() as int, *final(provider_r), ver),
        // success: the entry the search ends at, or the one seen before, whose inclusion proof is asked for
        r.1.is_none() ==> fixed_is(old(provider_r).handle.log@.len() as int, *final(provider_r), config, n as int, Fv::At(r.0 as int))
            || fixed_is(old(provider_r).handle.log@.len() as int, *final(provider_r), config, n as int, Fv::Needs(r.0 as int)) && is_incl(final(provider_r).handle.log@.last(), r.0, ver),
        // failure: the documented error, or a proof that failed
        r.1.is_some() && n > 0 ==> fails(*old(provider_r), *final(provider_r))
            || r.1 == not_found() && fixed_is(old(provider_r).handle.log@.len() as int, *final(provider_r), config, n as int, Fv::NotFound)
            || r.1 == label_expired() && fixed_is(old(provider_r).handle.log@.len() as int, *final(provider_r), config, n as int, Fv::Expired),
//@hint entry
    let ghost p0 = provider; let ghost k = provider.handle.log@.len() as int; let ghost mut lp = -1int; let ghost mut rp = n - 1;
    proof { good_refl(provider); if n > 0 { spine_last(n as int); root_exists(n as int); } }
//@hint before loop 1
    proof { only_now(k, p0, provider, ver, Ev::Ts(0, 0)); lvl_props(x as int);
        assert(distinguished@ =~= Seq::<u64>::empty());
        assert forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) implies fixed(config, n as int, f, a) == fvs(config, n as int, f, a, x as int, left as int, right as int, expired, tpos(terminalFound, terminalPos), distinguished@) by { agree_at(provider, (n - 1) as u64, f); } }
//@loop 1
    invariant okw(n), wf(provider), good(p0, provider), provider.handle.nil == p0.handle.nil, 0 <= x < n, terminalFound ==> terminalPos < n, k == p0.handle.log@.len(), only_for(k, provider, ver), has_ts(provider, (n - 1) as u64), provider.timestamps@[(n - 1) as u64] == rightmost,
        -1 <= lp < nl(x as int), lp >= 0 ==> has_ts(provider, lp as u64) && provider.timestamps@[lp as u64] == left, lp == -1 ==> left == 0,
        x <= rp < n, has_ts(provider, rp as u64) && provider.timestamps@[rp as u64] == right, rp == n - 1 || rp == nh(x as int),
        forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) ==> fixed(config, n as int, f, a) == fvs(config, n as int, f, a, x as int, left as int, right as int, expired, tpos(terminalFound, terminalPos), distinguished@),
    decreases lvl(x as int)
//@hint loop 1 top
    let ghost q0 = provider; let ghost x0 = x; let ghost l0 = left; let ghost r0 = right; let ghost e0 = expired; let ghost t0 = tpos(terminalFound, terminalPos); let ghost d0 = distinguished@;
    proof { lvl_props(x as int); pw_pos(lvl(x as int)); reveal_with_fuel(fvs, 2); }
//@hint after call al_GetTimestamp 2
    let ghost q1 = provider;
    proof {
        good_trans(p0, q0, provider);
        only_now(k, q0, provider, ver, Ev::Ts(0, 0));
        if RES1.is_none() {
            assert(q0.timestamps@.dom().contains((n - 1) as u64));
            assert(q0.timestamps@.dom().contains(rp as u64));
            if lp >= 0 { assert(q0.timestamps@.dom().contains(lp as u64)); assert(left <= RES0); }
            assert(has_ts(provider, x)); assert(RES0 <= rightmost); assert(RES0 <= right);
        }
        assert forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) implies fixed(config, n as int, f, a) == fvs(config, n as int, f, a, x as int, left as int, right as int, expired, tpos(terminalFound, terminalPos), distinguished@) && (RES1.is_none() ==> f(x as int) == RES0 && f(n - 1) == rightmost) by {
            agree_ext(q0, provider, f); answers_ext(k, q0, provider, a); if RES1.is_none() { agree_at(provider, x, f); agree_at(provider, (n - 1) as u64, f); } }
    }
//@hint after call al_GetSearchBinaryLadder 1
    let ghost q2 = provider;
    proof {
        good_trans(p0, q1, provider);
        if RES1.is_none() {
            only_now(k, q1, provider, ver, Ev::Search(x, ver, true, root_at(provider, x), RES0 as int));
            assert(q1.timestamps@.dom().contains((n - 1) as u64));
            assert(q1.timestamps@.dom().contains(rp as u64));
            assert(q1.timestamps@.dom().contains(x));
            if lp >= 0 { assert(q1.timestamps@.dom().contains(lp as u64)); }
        assert forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) implies
            a(x as int) == RES0 && fixed(config, n as int, f, a) == fvs(config, n as int, f, a, x as int, left as int, right as int, expired, t0, d0) && f(x as int) == timestamp && f(n - 1) == rightmost by {
            agree_ext(q1, provider, f); answers_ext(k, q1, provider, a); answers_now(k, q1, provider, ver, x, RES0 as int, a); }
            if RES0 != -1 && RES0 != 1 { assert(fixed_is(k, provider, config, n as int, if !expired || has_before(distinguished@, x + 1) { Fv::At(x as int) } else { Fv::Expired })); }
        }
    }
//@hint before call tm_Right 1
    proof { lp = x as int; right_exists(x as int, n as int); lvl_props(right_of(x as int, n as int)); pw_pos(lvl(right_of(x as int, n as int))); assert(has_ts(provider, x));
        assert forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) implies fixed(config, n as int, f, a) == fvs(config, n as int, f, a, right_of(x as int, n as int), timestamp as int, right as int, expired, tpos(terminalFound, terminalPos), distinguished@) by { }
    }
//@hint before call tm_Right 2
    proof { lp = x as int; right_exists(x as int, n as int); lvl_props(right_of(x as int, n as int)); pw_pos(lvl(right_of(x as int, n as int)));
        assert forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) implies fixed(config, n as int, f, a) == fvs(config, n as int, f, a, right_of(x as int, n as int), timestamp as int, right as int, expired, tpos(terminalFound, terminalPos), distinguished@) by { }
    }
//@hint before call tm_Left 1
    proof { rp = x as int; left_props(x as int); lvl_props(left_of(x as int));
        assert forall|f: spec_fn(int) -> int, a: spec_fn(int) -> int| #[trigger] agree(provider.timestamps@, f) && #[trigger] answers(k, provider, a) implies fixed(config, n as int, f, a) == fvs(config, n as int, f, a, left_of(x as int), left as int, timestamp as int, expired, tpos(terminalFound, terminalPos), distinguished@) by { }
    }
//@hint after call al_noRightChild 1
    proof { if RES { assert(fixed_is(k, provider, config, n as int, fv_end(expired, tpos(terminalFound, terminalPos), distinguished@))); } }
//@hint after call al_noRightChild 2
    proof { if RES { assert(fixed_is(k, provider, config, n as int, fv_end(expired, tpos(terminalFound, terminalPos), distinguished@))); } }
//@hint after call al_noLeftChild 1
    proof { if RES { assert(fixed_is(k, provider, config, n as int, fv_end(expired, tpos(terminalFound, terminalPos), distinguished@))); } }
//@loop 2
    invariant_except_break !found, forall|i: int| 0 <= i < IDX ==> #[trigger] SEQ@[i] >= terminalPos,
    invariant SEQ == distinguished,
    ensures found == has_before(distinguished@, terminalPos as int),
    decreases SEQ@.len() - IDX
//@loop 3
    invariant SEQ == distinguished, forall|i: int| 0 <= i < IDX ==> #[trigger] SEQ@[i] > x,
    decreases SEQ@.len() - IDX
//@hint before call al_GetInclusionProof
    let ghost q3 = provider;
//@hint after call al_GetInclusionProof
    proof { good_trans(p0, q3, provider); if RES.is_none() { only_now(k, q3, provider, ver, Ev::Incl(terminalPos, seq![ver], root_at(provider, terminalPos))); }
       fixed_ext(k, q3, provider, config, n as int, fv_end(expired, tpos(terminalFound, terminalPos), distinguished@)); }
//@attr #[verifier::allow_complex_invariants]
//@end
