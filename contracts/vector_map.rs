// ---- entries: an entry is one element of the vector; a key is an object of its own or the first member of an entry
pub uninterp spec fn kval(a: Val) -> Val;              // the key of an entry (of a key object: itself)
pub uninterp spec fn mval(a: Val) -> Val;              // the mapped value of an entry
pub uninterp spec fn keq(a: Val, b: Val) -> bool;      // operator== of keys
pub uninterp spec fn sec_of(p: int) -> int;            // address of the second member of an entry
pub fn sec(p: Ptr) -> (r: Ptr) ensures r@ == sec_of(p@) { Ptr { a: Ghost(sec_of(p@)) } }
#[verifier::external_body]
pub fn k_eq(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == keq(kval(ev(h.e@, a@)), kval(ev(h.e@, b@))) { unimplemented!() }
#[verifier::external_body]
pub fn pair_ctor(h: &mut H, p: Ptr, a: Ptr, b: Ptr) requires eraw(old(h).e@, p@), el(old(h).e@, a@), el(old(h).e@, b@)
    ensures exists|v: Val| *final(h) == (H { e: Ghost(old(h).e@.insert(p@, Slot::Live(v))), ..*old(h) }) && kval(v) == kval(ev(old(h).e@, a@)) && mval(v) == ev(old(h).e@, b@) { unimplemented!() }
// key of k equals the key of v
pub open spec fn is_key(k: Val, v: Val) -> bool { keq(kval(k), kval(v)) }
// first position from i with that key, or the end
pub open spec fn next(s: Seq<Val>, k: Val, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { s.len() as int } else if is_key(k, s[i]) { i } else { next(s, k, i + 1) }
}
// number of entries with that key before i
pub open spec fn cnt(s: Seq<Val>, k: Val, i: int) -> int decreases i {
    if i <= 0 { 0 } else { cnt(s, k, i - 1) + (if is_key(k, s[i - 1]) { 1int } else { 0int }) }
}
pub proof fn lem_cnt(s: Seq<Val>, k: Val, i: int, j: int)
    requires 0 <= i <= s.len(), j == next(s, k, i)
    ensures i <= j <= s.len(), cnt(s, k, j) == cnt(s, k, i), j < s.len() ==> is_key(k, s[j])
    decreases s.len() - i
{ if i < s.len() && !is_key(k, s[i]) { lem_cnt(s, k, i + 1, j); } }
pub proof fn lem_cnts(s: Seq<Val>, k: Val)
    ensures forall|i: int| 0 <= i <= s.len() ==> i <= #[trigger] next(s, k, i) <= s.len() && cnt(s, k, next(s, k, i)) == cnt(s, k, i) && (next(s, k, i) < s.len() ==> is_key(k, s[next(s, k, i)]))
{ assert forall|i: int| 0 <= i <= s.len() implies i <= #[trigger] next(s, k, i) <= s.len() && cnt(s, k, next(s, k, i)) == cnt(s, k, i) && (next(s, k, i) < s.len() ==> is_key(k, s[next(s, k, i)])) by { lem_cnt(s, k, i, next(s, k, i)); } }
pub proof fn lem_refl(a: H, v: int) requires wfv(a, v) ensures fr(a, a, v) {}
// temporaries t, x, y live while v is changed: afterwards only v has changed
pub proof fn stack_tmp3(a: H, b0: H, b: H, c: H, t: int, x: int, y: int, v: int)
    requires wf(a), a.vs@[v], a.e@[t] is No, a.e@[x] is No, a.e@[y] is No, b0 == (H { e: b0.e, ..a }), b0.e@[t] is Live, b0.e@[x] is Live, b0.e@[y] is Live,
        forall|p: int| p != t && p != x && p != y ==> #[trigger] b0.e@[p] == a.e@[p],
        fr(b0, b, v), wfv(b, v), c == (H { e: c.e, ..b }), forall|p: int| #[trigger] c.e@[p] == (if p == t || p == x || p == y { Slot::No } else { b.e@[p] })
    ensures fr(a, c, v), wfv(c, v), sv(c, v) == sv(b, v), sv(b0, v) == sv(a, v),
        !(b.el@[v] <= t < b.en@[v]), !(b.el@[v] <= x < b.en@[v]), !(b.el@[v] <= y < b.en@[v]), b.e@[t] is Live, b.e@[x] is Live, b.e@[y] is Live
{
    assert(wfv(a, v));
    assert forall|q: int| #![trigger a.e@[q]] q == t || q == x || q == y implies !(a.el@[v] <= q < a.en@[v]) && b.e@[q] == b0.e@[q] && !(b.el@[v] <= q < b.en@[v]) by {
        assert(b.e@[q] == b0.e@[q] || b.el@[v] <= q < b.en@[v]);
        assert(!(b0.e@[q] is No));
    }
    assert(a.e@[t] is No && a.e@[x] is No && a.e@[y] is No);
    assert forall|p: int| !(c.el@[v] <= p < c.en@[v]) implies #[trigger] c.e@[p] == (if a.el@[v] <= p < a.en@[v] { Slot::No } else { a.e@[p] }) by {
        assert(b.e@[p] == (if a.el@[v] <= p < a.en@[v] { Slot::No } else { b0.e@[p] }));
    }
    assert forall|p: int| #![trigger a.e@[p]] #![trigger c.e@[p]] c.el@[v] <= p < c.en@[v] && !(a.el@[v] <= p < a.en@[v]) implies a.e@[p] is No by { assert(b0.e@[p] is No); }
    assert forall|p: int| !(c.el@[v] <= p < c.en@[v]) && !(a.el@[v] <= p < a.en@[v]) && !(a.e@[p] is No) implies #[trigger] c.ob@[p] == a.ob@[p] by {
        assert(!(b0.e@[p] is No)); assert(b.ob@[p] == b0.ob@[p]);
    }
    assert(sv(c, v) =~= sv(b, v));
    assert(sv(b0, v) =~= sv(a, v));
}
