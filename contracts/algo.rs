pub struct H { pub e: Ghost<IMap<int, Slot>>, pub n: Ghost<int> }
// user supplied functions
pub uninterp spec fn uop(a: Val) -> Val;
pub uninterp spec fn bop(a: Val, b: Val) -> Val;
pub uninterp spec fn vplus(a: Val, b: Val) -> Val;
pub uninterp spec fn vinc(a: Val) -> Val;
pub uninterp spec fn fop(k: int, a: Val) -> Val;   // k-th call of the function given to for_each
pub uninterp spec fn gop(k: int) -> Val;           // k-th call of the generator
pub fn f_call(h: &mut H, a: Ptr) requires el(old(h).e@, a@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::Live(fop(old(h).n@, ev(old(h).e@, a@))))), n: Ghost(old(h).n@ + 1) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::Live(fop(h.n@, ev(h.e@, a@))))), n: Ghost(h.n@ + 1) }; }
pub fn g_into(h: &mut H, d: Ptr) requires eraw(old(h).e@, d@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(d@, Slot::Live(gop(old(h).n@)))), n: Ghost(old(h).n@ + 1) }) { *h = H { e: Ghost(h.e@.insert(d@, Slot::Live(gop(h.n@)))), n: Ghost(h.n@ + 1) }; }
pub fn uop_into(h: &mut H, d: Ptr, a: Ptr) requires eraw(old(h).e@, d@), el(old(h).e@, a@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(d@, Slot::Live(uop(ev(old(h).e@, a@))))), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(d@, Slot::Live(uop(ev(h.e@, a@))))), ..*h }; }
pub fn bop_into(h: &mut H, d: Ptr, a: Ptr, b: Ptr) requires eraw(old(h).e@, d@), el(old(h).e@, a@), el(old(h).e@, b@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(d@, Slot::Live(bop(ev(old(h).e@, a@), ev(old(h).e@, b@))))), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(d@, Slot::Live(bop(ev(h.e@, a@), ev(h.e@, b@))))), ..*h }; }
pub fn plus_into(h: &mut H, d: Ptr, a: Ptr, b: Ptr) requires eraw(old(h).e@, d@), el(old(h).e@, a@), el(old(h).e@, b@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(d@, Slot::Live(vplus(ev(old(h).e@, a@), ev(old(h).e@, b@))))), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(d@, Slot::Live(vplus(ev(h.e@, a@), ev(h.e@, b@))))), ..*h }; }
pub fn inc_call(h: &mut H, a: Ptr) requires el(old(h).e@, a@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::Live(vinc(ev(old(h).e@, a@))))), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::Live(vinc(ev(h.e@, a@))))), ..*h }; }

// ---- spec functions of the algorithms (over absolute addresses)
pub open spec fn count_eq(m: IMap<int, Slot>, a: int, b: int, v: Val) -> int decreases b - a {
    if b <= a { 0 } else { count_eq(m, a, b - 1, v) + (if veq(ev(m, b - 1), v) { 1int } else { 0int }) }
}
pub open spec fn count_pp(m: IMap<int, Slot>, a: int, b: int) -> int decreases b - a {
    if b <= a { 0 } else { count_pp(m, a, b - 1) + (if pp(ev(m, b - 1)) { 1int } else { 0int }) }
}
// elements of [a,b) kept by a predicate, in order
pub open spec fn kept(m: IMap<int, Slot>, a: int, b: int, f: spec_fn(Val) -> bool) -> Seq<Val> decreases b - a {
    if b <= a { Seq::empty() } else { if f(ev(m, b - 1)) { kept(m, a, b - 1, f).push(ev(m, b - 1)) } else { kept(m, a, b - 1, f) } }
}
pub proof fn kept_len(m: IMap<int, Slot>, a: int, b: int, f: spec_fn(Val) -> bool)
    ensures kept(m, a, b, f).len() <= (if b <= a { 0 } else { b - a }) decreases b - a { if b > a { kept_len(m, a, b - 1, f); } }
// only the elements of [a,b) matter
pub proof fn kept_same(m: IMap<int, Slot>, n: IMap<int, Slot>, a: int, b: int, f: spec_fn(Val) -> bool)
    requires forall|p: int| a <= p < b ==> #[trigger] ev(m, p) == ev(n, p)
    ensures kept(m, a, b, f) == kept(n, a, b, f) decreases b - a { if b > a { kept_same(m, n, a, b - 1, f); assert(ev(m, b - 1) == ev(n, b - 1)); } }
pub proof fn kept_none(m: IMap<int, Slot>, a: int, b: int, f: spec_fn(Val) -> bool)
    requires a <= b, forall|p: int| a <= p < b ==> #[trigger] f(ev(m, p))
    ensures kept(m, a, b, f) == sq(m, a, b) decreases b - a {
    if b > a { kept_none(m, a, b - 1, f); assert(f(ev(m, b - 1))); assert(kept(m, a, b, f) =~= sq(m, a, b)); } else { assert(kept(m, a, b, f) =~= sq(m, a, b)); }
}
pub open spec fn ne_of(v: Val) -> spec_fn(Val) -> bool { |x: Val| !veq(x, v) }
pub open spec fn npp() -> spec_fn(Val) -> bool { |x: Val| !pp(x) }
pub open spec fn ypp() -> spec_fn(Val) -> bool { |x: Val| pp(x) }
// the destination [d, d+s.len()) holds s
pub open spec fn holds(m: IMap<int, Slot>, d: int, s: Seq<Val>) -> bool { forall|i: int| d <= i < d + s.len() ==> #[trigger] m[i] == Slot::Live(s[i - d]) }
pub open spec fn fold_plus(m: IMap<int, Slot>, a: int, b: int, v: Val) -> Val decreases b - a {
    if b <= a { v } else { vplus(fold_plus(m, a, b - 1, v), ev(m, b - 1)) }
}
pub open spec fn inc_n(k: int, v: Val) -> Val decreases k { if k <= 0 { v } else { vinc(inc_n(k - 1, v)) } }
// ordering
pub open spec fn sorted(m: IMap<int, Slot>, a: int, b: int) -> bool { forall|i: int, j: int| a <= i < j < b ==> !vlt(#[trigger] ev(m, j), #[trigger] ev(m, i)) }
pub open spec fn sortedc(m: IMap<int, Slot>, a: int, b: int) -> bool { forall|i: int, j: int| a <= i < j < b ==> !cp(#[trigger] ev(m, j), #[trigger] ev(m, i)) }
// stable merge of two sorted ranges
pub open spec fn merged(m: IMap<int, Slot>, a: int, b: int, c: int, d: int) -> Seq<Val> decreases (b - a) + (d - c) when a <= b && c <= d {
    if a == b { sq(m, c, d) } else if c == d { sq(m, a, b) }
    else if vlt(ev(m, c), ev(m, a)) { seq![ev(m, c)] + merged(m, a, b, c + 1, d) }
    else { seq![ev(m, a)] + merged(m, a + 1, b, c, d) }
}
pub open spec fn search_at(m: IMap<int, Slot>, f: int, sf: int, sl: int) -> bool { forall|k: int| sf <= k < sl ==> veq(ev(m, f + (k - sf)), #[trigger] ev(m, k)) }
pub open spec fn search_atp(m: IMap<int, Slot>, f: int, sf: int, sl: int) -> bool { forall|k: int| sf <= k < sl ==> bp(ev(m, f + (k - sf)), #[trigger] ev(m, k)) }
pub open spec fn run_at(m: IMap<int, Slot>, f: int, n: int, v: Val) -> bool { forall|k: int| f <= k < f + n ==> veq(#[trigger] ev(m, k), v) }
pub open spec fn run_atp(m: IMap<int, Slot>, f: int, n: int, v: Val) -> bool { forall|k: int| f <= k < f + n ==> bp(#[trigger] ev(m, k), v) }

pub proof fn kept_mono(m: IMap<int, Slot>, a: int, b: int, c: int, f: spec_fn(Val) -> bool)
    requires b <= c ensures kept(m, a, b, f).len() <= kept(m, a, c, f).len() decreases c - b { if b < c { kept_mono(m, a, b, c - 1, f); } }

pub proof fn merged_len(m: IMap<int, Slot>, a: int, b: int, c: int, d: int)
    requires a <= b, c <= d ensures merged(m, a, b, c, d).len() == (b - a) + (d - c) decreases (b - a) + (d - c) {
    if a < b && c < d { if vlt(ev(m, c), ev(m, a)) { merged_len(m, a, b, c + 1, d); } else { merged_len(m, a + 1, b, c, d); } }
}

pub uninterp spec fn NN() -> nat;      // the template argument N of array
#[verifier::external_body]
pub fn nn() -> (r: u64) ensures r == NN() { unimplemented!() }
