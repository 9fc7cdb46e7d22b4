// ---- heap of the vector family: the three pointers of every vector object, the element slots, the allocated blocks
pub struct H {
    pub e: Ghost<IMap<int, Slot>>,       // element slots
    pub el: Ghost<IMap<int, int>>, pub la: Ghost<IMap<int, int>>, pub en: Ghost<IMap<int, int>>,   // fields by object address
    pub blk: Ghost<IMap<int, int>>,      // size of the block that starts at an address, -1 if there is none
    pub ob: Ghost<IMap<int, int>>,       // start of the block that contains an address
    pub vo: Ghost<IMap<int, int>>,       // ghost: the vector that owns a block
    pub vs: Ghost<IMap<int, bool>>,      // ghost: the vectors that are alive
}
pub open spec fn MAXN() -> int { 0x7fff_ffff_ffff_ffff }
pub fn ld_el(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.el@[p@] { Ptr { a: Ghost(h.el@[p@]) } }
pub fn ld_la(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.la@[p@] { Ptr { a: Ghost(h.la@[p@]) } }
pub fn ld_en(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.en@[p@] { Ptr { a: Ghost(h.en@[p@]) } }
pub fn st_el(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { el: Ghost(old(h).el@.insert(p@, v@)), ..*old(h) }) { *h = H { el: Ghost(h.el@.insert(p@, v@)), ..*h }; }
pub fn st_la(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { la: Ghost(old(h).la@.insert(p@, v@)), ..*old(h) }) { *h = H { la: Ghost(h.la@.insert(p@, v@)), ..*h }; }
pub fn st_en(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { en: Ghost(old(h).en@.insert(p@, v@)), ..*old(h) }) { *h = H { en: Ghost(h.en@.insert(p@, v@)), ..*h }; }
// operator new(n * sizeof(T)): fresh storage
#[verifier::external_body]
pub fn alloc_arr(h: &mut H, n: u64) -> (r: Ptr) requires n <= MAXN()
    ensures r@ != 0, old(h).blk@[r@] == -1,
        final(h).el@ == old(h).el@, final(h).la@ == old(h).la@, final(h).en@ == old(h).en@, final(h).vo@ == old(h).vo@, final(h).vs@ == old(h).vs@,
        final(h).blk@ == old(h).blk@.insert(r@, n as int),
        forall|p: int| r@ <= p < r@ + n ==> #[trigger] old(h).e@[p] is No,
        forall|p: int| #[trigger] final(h).e@[p] == (if r@ <= p < r@ + n { Slot::Raw } else { old(h).e@[p] }),
        forall|p: int| #[trigger] final(h).ob@[p] == (if r@ <= p < r@ + n { r@ } else { old(h).ob@[p] }),
{ unimplemented!() }
// operator delete(p): a block without live elements, or null
pub fn op_delete(h: &mut H, a: Ptr)
    requires a@ == 0 || (old(h).blk@[a@] >= 0 && forall|p: int| a@ <= p < a@ + old(h).blk@[a@] ==> #[trigger] old(h).e@[p] is Raw),
    ensures a@ == 0 ==> *final(h) == *old(h),
        a@ != 0 ==> {
            &&& final(h).el@ == old(h).el@ && final(h).la@ == old(h).la@ && final(h).en@ == old(h).en@ && final(h).vo@ == old(h).vo@ && final(h).vs@ == old(h).vs@ && final(h).ob@ == old(h).ob@
            &&& final(h).blk@ == old(h).blk@.insert(a@, -1)
            &&& forall|p: int| #[trigger] final(h).e@[p] == (if a@ <= p < a@ + old(h).blk@[a@] { Slot::No } else { old(h).e@[p] })
        },
{
    *h = H {
        e: Ghost(if a@ == 0 { h.e@ } else { IMap::total(|p: int| if a@ <= p < a@ + h.blk@[a@] { Slot::No } else { h.e@[p] }) }),
        blk: Ghost(if a@ == 0 { h.blk@ } else { h.blk@.insert(a@, -1) }), ..*h };
}

// ---- representation invariant
pub open spec fn wfv(h: H, v: int) -> bool {
    &&& h.el@[v] <= h.la@[v] <= h.en@[v]
    &&& h.en@[v] - h.el@[v] <= MAXN()
    &&& forall|p: int| h.el@[v] <= p < h.la@[v] ==> #[trigger] h.e@[p] is Live
    &&& forall|p: int| h.la@[v] <= p < h.en@[v] ==> #[trigger] h.e@[p] is Raw
    &&& forall|p: int| h.el@[v] <= p < h.en@[v] ==> #[trigger] h.ob@[p] == h.el@[v]
    &&& h.el@[v] == 0 ==> h.en@[v] == 0
    &&& h.el@[v] != 0 ==> h.blk@[h.el@[v]] == h.en@[v] - h.el@[v] && h.vo@[h.el@[v]] == v
}
pub open spec fn wf(h: H) -> bool { forall|v: int| #[trigger] h.vs@[v] ==> wfv(h, v) }
// the abstract sequence
pub open spec fn sv(h: H, v: int) -> Seq<Val> { sq(h.e@, h.el@[v], h.la@[v]) }
pub open spec fn sz(h: H, v: int) -> int { h.la@[v] - h.el@[v] }
// from a to b only vector v changed, and its storage [al,an) was exchanged for [b.el[v], b.en[v]); nothing else was
// constructed, destroyed, allocated or released
pub open spec fn frx(a: H, b: H, v: int, al: int, an: int) -> bool {
    &&& forall|p: int| !(b.el@[v] <= p < b.en@[v]) ==> #[trigger] b.e@[p] == (if al <= p < an { Slot::No } else { a.e@[p] })
    &&& forall|p: int| #![trigger a.e@[p]] #![trigger b.e@[p]] b.el@[v] <= p < b.en@[v] && !(al <= p < an) ==> a.e@[p] is No
    &&& forall|w: int| w != v ==> #[trigger] b.el@[w] == a.el@[w]
    &&& forall|w: int| w != v ==> #[trigger] b.la@[w] == a.la@[w]
    &&& forall|w: int| w != v ==> #[trigger] b.en@[w] == a.en@[w]
    &&& forall|x: int| #[trigger] b.blk@[x] == (if x == b.el@[v] && x != 0 { b.en@[v] - b.el@[v] } else if x == al && x != 0 { -1 } else { a.blk@[x] })
    &&& b.el@[v] != 0 && b.el@[v] != al ==> a.blk@[b.el@[v]] == -1
    &&& forall|x: int| x != 0 && x != b.el@[v] && x != al && a.blk@[x] != -1 ==> #[trigger] b.vo@[x] == a.vo@[x]
    &&& forall|p: int| !(b.el@[v] <= p < b.en@[v]) && !(al <= p < an) && !(a.e@[p] is No) ==> #[trigger] b.ob@[p] == a.ob@[p]
}
pub open spec fn fr(a: H, b: H, v: int) -> bool { b.vs@ == a.vs@ && frx(a, b, v, a.el@[v], a.en@[v]) }
pub proof fn wf_fr(a: H, b: H, v: int)
    requires wf(a), a.vs@[v], fr(a, b, v), wfv(b, v)
    ensures wf(b)
{
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by {
        assert(a.vs@[w]); assert(wfv(a, v)); assert(wfv(a, w));
        if w != v {
            assert forall|p: int| #![trigger a.e@[p]] #![trigger b.e@[p]] #![trigger b.ob@[p]] a.el@[w] <= p < a.en@[w] implies !(b.el@[v] <= p < b.en@[v]) && !(a.el@[v] <= p < a.en@[v]) by {
                assert(a.ob@[p] == a.el@[w]);
                assert(!(a.e@[p] is No));
                if a.el@[v] <= p < a.en@[v] { assert(a.ob@[p] == a.el@[v]); }
                if b.el@[v] <= p < b.en@[v] { }
            }
            assert forall|p: int| b.el@[w] <= p < b.la@[w] implies #[trigger] b.e@[p] is Live by { assert(a.e@[p] is Live); }
            assert forall|p: int| b.la@[w] <= p < b.en@[w] implies #[trigger] b.e@[p] is Raw by { assert(a.e@[p] is Raw); }
        }
    }
}
pub proof fn frx_trans(a: H, b: H, c: H, v: int, al: int, an: int)
    requires frx(a, b, v, al, an), frx(b, c, v, b.el@[v], b.en@[v])
    ensures frx(a, c, v, al, an)
{
    assert forall|p: int| !(c.el@[v] <= p < c.en@[v]) implies #[trigger] c.e@[p] == (if al <= p < an { Slot::No } else { a.e@[p] }) by { assert(b.e@[p] == b.e@[p]); assert(a.e@[p] == a.e@[p]); }
    assert forall|p: int| #![trigger a.e@[p]] #![trigger c.e@[p]] c.el@[v] <= p < c.en@[v] && !(al <= p < an) implies a.e@[p] is No by { let q = b.e@[p]; let r = c.e@[p]; assert(b.e@[p] == b.e@[p]); }
    assert forall|p: int| !(c.el@[v] <= p < c.en@[v]) && !(al <= p < an) && !(a.e@[p] is No) implies #[trigger] c.ob@[p] == a.ob@[p] by { let q = b.e@[p]; let r = c.e@[p]; let s = b.ob@[p]; }
    assert forall|x: int| x != 0 && x != c.el@[v] && x != al && a.blk@[x] != -1 implies #[trigger] c.vo@[x] == a.vo@[x] by { let q = b.blk@[x]; let r = b.vo@[x]; }
}
pub proof fn fr_trans(a: H, b: H, c: H, v: int)
    requires fr(a, b, v), fr(b, c, v)
    ensures fr(a, c, v)
{ frx_trans(a, b, c, v, a.el@[v], a.en@[v]); }
// a vector that is not v keeps its contents
pub proof fn other_kept(a: H, b: H, v: int, w: int)
    requires wf(a), a.vs@[v], a.vs@[w], v != w, fr(a, b, v)
    ensures sv(b, w) == sv(a, w), sz(b, w) == sz(a, w)
{
    assert(wfv(a, v)); assert(wfv(a, w));
    assert forall|p: int| a.el@[w] <= p < a.la@[w] implies #[trigger] b.e@[p] == a.e@[p] by {
        assert(a.ob@[p] == a.el@[w]); assert(a.e@[p] is Live);
        if a.el@[v] <= p < a.en@[v] { assert(a.ob@[p] == a.el@[v]); }
    }
    assert(sv(b, w) =~= sv(a, w));
}
// b differs from a at most in the element slots and in last_ of v
pub open spec fn eqe(a: H, b: H, v: int) -> bool {
    &&& b == (H { e: b.e, la: b.la, ..a })
    &&& forall|w: int| w != v ==> #[trigger] b.la@[w] == a.la@[w]
}
// fresh storage [a,b) lies apart from storage [c,d) that is in use
pub proof fn apart(m: IMap<int, Slot>, a: int, b: int, c: int, d: int)
    requires forall|p: int| a <= p < b ==> #[trigger] m[p] is No, forall|p: int| c <= p < d ==> !(#[trigger] m[p] is No)
    ensures a < b && c < d ==> b <= c || d <= a
{
    if a < b && c < d && !(b <= c || d <= a) { let p = if a < c { c } else { a }; assert(m[p] is No); assert(!(m[p] is No)); }
}

// a temporary t lives while v is changed: afterwards only v has changed
pub proof fn stack_tmp(a: H, b0: H, b: H, c: H, t: int, v: int)
    requires wf(a), a.vs@[v], a.e@[t] is No, b0 == (H { e: b0.e, ..a }), b0.e@[t] is Live, forall|p: int| p != t ==> #[trigger] b0.e@[p] == a.e@[p],
        fr(b0, b, v), wfv(b, v), c == (H { e: Ghost(b.e@.insert(t, Slot::No)), ..b })
    ensures fr(a, c, v), wfv(c, v), !(b.el@[v] <= t < b.en@[v]), sv(c, v) == sv(b, v), b.e@[t] == b0.e@[t]
{
    assert(wfv(a, v));
    assert(!(a.el@[v] <= t < a.en@[v]));
    assert(b.e@[t] == b0.e@[t] || b.el@[v] <= t < b.en@[v]);
    assert(!(b.el@[v] <= t < b.en@[v]));
    assert forall|p: int| !(c.el@[v] <= p < c.en@[v]) implies #[trigger] c.e@[p] == (if a.el@[v] <= p < a.en@[v] { Slot::No } else { a.e@[p] }) by {
        assert(b.e@[p] == (if a.el@[v] <= p < a.en@[v] { Slot::No } else { b0.e@[p] }));
    }
    assert forall|p: int| #![trigger a.e@[p]] #![trigger c.e@[p]] c.el@[v] <= p < c.en@[v] && !(a.el@[v] <= p < a.en@[v]) implies a.e@[p] is No by { assert(b0.e@[p] is No); }
    assert forall|p: int| !(c.el@[v] <= p < c.en@[v]) && !(a.el@[v] <= p < a.en@[v]) && !(a.e@[p] is No) implies #[trigger] c.ob@[p] == a.ob@[p] by {
        assert(!(b0.e@[p] is No)); assert(b.ob@[p] == b0.ob@[p]);
    }
    assert(sv(c, v) =~= sv(b, v));
}
// from a to b only vector v came to life; its storage is new
pub open spec fn frn(a: H, b: H, v: int) -> bool { b.vs@ == a.vs@.insert(v, true) && frx(a, b, v, 0, 0) }
pub proof fn wf_new(a: H, b: H, v: int)
    requires wf(a), !a.vs@[v], frn(a, b, v), wfv(b, v)
    ensures wf(b)
{
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by {
        if w != v {
            assert(a.vs@[w]); assert(wfv(a, w));
            assert forall|p: int| #![trigger a.e@[p]] #![trigger b.e@[p]] #![trigger b.ob@[p]] a.el@[w] <= p < a.en@[w] implies !(b.el@[v] <= p < b.en@[v]) by {
                assert(a.ob@[p] == a.el@[w]);
                assert(!(a.e@[p] is No));
            }
            assert forall|p: int| b.el@[w] <= p < b.la@[w] implies #[trigger] b.e@[p] is Live by { assert(a.e@[p] is Live); }
            assert forall|p: int| b.la@[w] <= p < b.en@[w] implies #[trigger] b.e@[p] is Raw by { assert(a.e@[p] is Raw); }
        }
    }
}
// from a to b vector v and its storage disappeared
pub open spec fn gone(a: H, b: H, v: int) -> bool {
    &&& b.vs@ == a.vs@.insert(v, false)
    &&& forall|p: int| #[trigger] b.e@[p] == (if a.el@[v] <= p < a.en@[v] { Slot::No } else { a.e@[p] })
    &&& forall|w: int| w != v ==> #[trigger] b.el@[w] == a.el@[w]
    &&& forall|w: int| w != v ==> #[trigger] b.la@[w] == a.la@[w]
    &&& forall|w: int| w != v ==> #[trigger] b.en@[w] == a.en@[w]
    &&& forall|x: int| #[trigger] b.blk@[x] == (if x == a.el@[v] && x != 0 { -1 } else { a.blk@[x] })
    &&& forall|x: int| x != 0 && x != a.el@[v] && a.blk@[x] != -1 ==> #[trigger] b.vo@[x] == a.vo@[x]
    &&& forall|p: int| !(a.el@[v] <= p < a.en@[v]) && !(a.e@[p] is No) ==> #[trigger] b.ob@[p] == a.ob@[p]
}
pub proof fn wf_gone(a: H, b: H, v: int)
    requires wf(a), a.vs@[v], gone(a, b, v)
    ensures wf(b)
{
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by {
        assert(wfv(a, v)); assert(a.vs@[w]); assert(wfv(a, w));
        assert forall|p: int| #![trigger a.e@[p]] #![trigger b.e@[p]] #![trigger b.ob@[p]] a.el@[w] <= p < a.en@[w] implies !(a.el@[v] <= p < a.en@[v]) by {
            assert(a.ob@[p] == a.el@[w]);
            if a.el@[v] <= p < a.en@[v] { assert(a.ob@[p] == a.el@[v]); }
        }
        assert forall|p: int| b.el@[w] <= p < b.la@[w] implies #[trigger] b.e@[p] is Live by { assert(a.e@[p] is Live); }
        assert forall|p: int| b.la@[w] <= p < b.en@[w] implies #[trigger] b.e@[p] is Raw by { assert(a.e@[p] is Raw); }
    }
}
// v and x exchanged their storage and nothing else changed
pub open spec fn swapped(a: H, b: H, v: int, x: int) -> bool {
    &&& b == (H { el: b.el, la: b.la, en: b.en, vo: b.vo, ..a })
    &&& forall|w: int| #[trigger] b.el@[w] == (if w == v { a.el@[x] } else if w == x { a.el@[v] } else { a.el@[w] })
    &&& forall|w: int| #[trigger] b.la@[w] == (if w == v { a.la@[x] } else if w == x { a.la@[v] } else { a.la@[w] })
    &&& forall|w: int| #[trigger] b.en@[w] == (if w == v { a.en@[x] } else if w == x { a.en@[v] } else { a.en@[w] })
    &&& forall|y: int| y != 0 && y != a.el@[v] && y != a.el@[x] ==> #[trigger] b.vo@[y] == a.vo@[y]
    &&& a.el@[v] != 0 ==> b.vo@[a.el@[v]] == x
    &&& a.el@[x] != 0 ==> b.vo@[a.el@[x]] == v
}
pub proof fn wf_swap(a: H, b: H, v: int, x: int)
    requires wf(a), a.vs@[v], a.vs@[x], swapped(a, b, v, x)
    ensures wf(b)
{
    assert forall|w: int| #[trigger] b.vs@[w] implies wfv(b, w) by { assert(wfv(a, v)); assert(wfv(a, x)); assert(wfv(a, w)); }
}
// [a,b) is not in the storage of v
pub open spec fn outside(h: H, v: int, a: int, b: int) -> bool { a < b && h.el@[v] < h.en@[v] ==> b <= h.el@[v] || h.en@[v] <= a }
pub proof fn kept_range(a: H, b: H, v: int, f: int, l: int)
    requires forall|p: int| f <= p < l ==> #[trigger] a.e@[p] is Live, outside(a, v, f, l), fr(a, b, v)
    ensures forall|p: int| f <= p < l ==> #[trigger] b.e@[p] == a.e@[p], outside(b, v, f, l)
{
    assert forall|p: int| #![trigger a.e@[p]] #![trigger b.e@[p]] f <= p < l implies !(b.el@[v] <= p < b.en@[v]) by { assert(a.e@[p] is Live); assert(!(a.el@[v] <= p < a.en@[v])); }
    if f < l && b.el@[v] < b.en@[v] && !(l <= b.el@[v] || b.en@[v] <= f) { let p = if f < b.el@[v] { b.el@[v] } else { f }; assert(a.e@[p] is Live); assert(f <= p < l); assert(b.el@[v] <= p < b.en@[v]); }
    assert forall|p: int| f <= p < l implies #[trigger] b.e@[p] == a.e@[p] by { assert(a.e@[p] is Live); }
}
pub open spec fn eqs(a: Seq<Val>, b: Seq<Val>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> veq(#[trigger] a[i], b[i]) }
