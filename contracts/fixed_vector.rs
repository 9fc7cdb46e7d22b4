// ---- heap of the fixed_vector family: N element slots at the address of the object, and its last_ pointer
pub struct H {
    pub e: Ghost<IMap<int, Slot>>,       // element slots
    pub la: Ghost<IMap<int, int>>,       // last_ by object address
    pub ob: Ghost<IMap<int, int>>,       // ghost: the object whose storage contains an address
    pub vs: Ghost<IMap<int, bool>>,      // ghost: the fixed_vectors that are alive
}
pub uninterp spec fn NN() -> nat;      // the template argument N
#[verifier::external_body]
pub fn nn() -> (r: u64) ensures r == NN(), 1 <= NN() <= 0xffff_ffff { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn ax_nn() ensures 1 <= #[trigger] NN() <= 0xffff_ffff {}
pub fn ld_la(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.la@[p@] { Ptr { a: Ghost(h.la@[p@]) } }
pub fn st_la(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { la: Ghost(old(h).la@.insert(p@, v@)), ..*old(h) }) { *h = H { la: Ghost(h.la@.insert(p@, v@)), ..*h }; }

// ---- representation invariant
pub open spec fn wfv(h: H, v: int) -> bool {
    &&& v <= h.la@[v] <= v + NN()
    &&& forall|p: int| v <= p < h.la@[v] ==> #[trigger] h.e@[p] is Live
    &&& forall|p: int| h.la@[v] <= p < v + NN() ==> #[trigger] h.e@[p] is Raw
    &&& forall|p: int| v <= p < v + NN() ==> #[trigger] h.ob@[p] == v
}
pub open spec fn wf(h: H) -> bool { forall|v: int| #[trigger] h.vs@[v] ==> wfv(h, v) }
pub open spec fn sv(h: H, v: int) -> Seq<Val> { sq(h.e@, v, h.la@[v]) }
// memory in which a fixed_vector can be constructed
pub open spec fn room(h: H, v: int) -> bool {
    &&& !h.vs@[v]
    &&& forall|p: int| v <= p < v + NN() ==> #[trigger] h.e@[p] is Raw
    &&& forall|p: int| v <= p < v + NN() ==> #[trigger] h.ob@[p] == v
}
// from a to b nothing but the slots and last_ of v changed
pub open spec fn frx(a: H, b: H, v: int) -> bool {
    &&& b.ob@ == a.ob@
    &&& forall|p: int| !(v <= p < v + NN()) ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|w: int| w != v ==> #[trigger] b.la@[w] == a.la@[w]
}
pub open spec fn fr(a: H, b: H, v: int) -> bool { b.vs@ == a.vs@ && frx(a, b, v) }
pub open spec fn fr2(a: H, b: H, v: int, x: int) -> bool {
    &&& b.ob@ == a.ob@ && b.vs@ == a.vs@
    &&& forall|p: int| !(v <= p < v + NN()) && !(x <= p < x + NN()) ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|w: int| w != v && w != x ==> #[trigger] b.la@[w] == a.la@[w]
}
// different fixed_vectors do not share storage
pub proof fn disj(h: H, v: int, w: int)
    requires wfv(h, v), wfv(h, w), v != w
    ensures v + NN() <= w || w + NN() <= v
{
    broadcast use ax_nn;
    if v <= w < v + NN() { assert(h.ob@[w] == v); assert(h.ob@[w] == w); }
    if w <= v < w + NN() { assert(h.ob@[v] == v); assert(h.ob@[v] == w); }
}
pub proof fn wf_fr2(a: H, b: H, v: int, x: int)
    requires wf(a), a.vs@[v], a.vs@[x], fr2(a, b, v, x), wfv(b, v), wfv(b, x)
    ensures wf(b)
{
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by {
        assert(wfv(a, v)); assert(wfv(a, x)); assert(wfv(a, w));
        if w != v && w != x {
            disj(a, v, w); disj(a, x, w);
            assert forall|p: int| b.la@[w] <= p < w + NN() implies #[trigger] b.e@[p] is Raw by { assert(a.e@[p] is Raw); }
            assert forall|p: int| w <= p < b.la@[w] implies #[trigger] b.e@[p] is Live by { assert(a.e@[p] is Live); }
        }
    }
}
pub proof fn wf_fr(a: H, b: H, v: int)
    requires wf(a), a.vs@[v], fr(a, b, v), wfv(b, v)
    ensures wf(b)
{ wf_fr2(a, b, v, v); }
pub proof fn wf_new(a: H, b: H, v: int)
    requires wf(a), room(a, v), frx(a, b, v), b.vs@ == a.vs@.insert(v, true), wfv(b, v)
    ensures wf(b)
{
    broadcast use ax_nn;
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by {
        if w != v {
            assert(a.vs@[w]); assert(wfv(a, w));
            assert(b.ob@[v] == v);
            if v <= w < v + NN() { assert(a.ob@[w] == v); assert(a.ob@[w] == w); }
            if w <= v < w + NN() { assert(a.ob@[v] == v); assert(a.ob@[v] == w); }
            assert forall|p: int| b.la@[w] <= p < w + NN() implies #[trigger] b.e@[p] is Raw by { assert(a.e@[p] is Raw); }
            assert forall|p: int| w <= p < b.la@[w] implies #[trigger] b.e@[p] is Live by { assert(a.e@[p] is Live); }
        }
    }
}
pub proof fn wf_gone(a: H, b: H, v: int)
    requires wf(a), a.vs@[v], frx(a, b, v), b.vs@ == a.vs@.insert(v, false)
    ensures wf(b)
{
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by {
        assert(w != v); assert(a.vs@[w]); assert(wfv(a, w)); assert(wfv(a, v)); disj(a, v, w);
        assert forall|p: int| b.la@[w] <= p < w + NN() implies #[trigger] b.e@[p] is Raw by { assert(a.e@[p] is Raw); }
        assert forall|p: int| w <= p < b.la@[w] implies #[trigger] b.e@[p] is Live by { assert(a.e@[p] is Live); }
    }
}
// [a,b) is not in the storage of v
pub open spec fn outside(v: int, a: int, b: int) -> bool { a < b ==> b <= v || v + NN() <= a }
// b differs from a at most in the element slots and in last_ of v
pub open spec fn eqe(a: H, b: H, v: int) -> bool {
    &&& b == (H { e: b.e, la: b.la, ..a })
    &&& forall|w: int| w != v ==> #[trigger] b.la@[w] == a.la@[w]
}
pub open spec fn eqs(a: Seq<Val>, b: Seq<Val>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> veq(#[trigger] a[i], b[i]) }
// the first N elements
pub open spec fn cut(s: Seq<Val>) -> Seq<Val> { if s.len() > NN() { s.subrange(0, NN() as int) } else { s } }
// the first NN() minus d
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn disj_room(h: H, v: int, w: int)
    requires room(h, v), wfv(h, w), v != w
    ensures v + NN() <= w || w + NN() <= v
{
    broadcast use ax_nn;
    if v <= w < v + NN() { assert(h.ob@[w] == v); assert(h.ob@[w] == w); }
    if w <= v < w + NN() { assert(h.ob@[v] == v); assert(h.ob@[v] == w); }
}
pub proof fn out_live(h: H, v: int, p: int)
    requires room(h, v), h.e@[p] is Live
    ensures !(v <= p < v + NN())
{ if v <= p < v + NN() { assert(h.e@[p] is Raw); } }
