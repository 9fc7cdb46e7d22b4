// ---- heap of sorted_vector_map: arrays of pointers (cells), nodes with a key (at their address) and a value (next to it)
pub struct H {
    pub e: Ghost<IMap<int, Slot>>,       // element slots
    pub c: Ghost<IMap<int, int>>,        // contents of the cells
    pub cb: Ghost<IMap<int, int>>,       // start of the array that contains a cell, 0 if there is none
    pub blk: Ghost<IMap<int, int>>,      // size of the array that starts at an address, -1 if there is none
    pub el: Ghost<IMap<int, int>>, pub la: Ghost<IMap<int, int>>, pub en: Ghost<IMap<int, int>>,   // fields by object address
    pub nd: Ghost<IMap<int, bool>>,      // allocated nodes
    pub vs: Ghost<IMap<int, bool>>,      // ghost: the maps that are alive
    pub bo: Ghost<IMap<int, int>>,       // ghost: the map that owns an array
    pub own: Ghost<spec_fn(int) -> int>, pub idx: Ghost<spec_fn(int) -> int>,   // ghost: owner of a node, its position
}
pub open spec fn MAXN() -> int { 0x0fff_ffff_ffff_ffff }
pub fn ld_el(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.el@[p@] { Ptr { a: Ghost(h.el@[p@]) } }
pub fn ld_la(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.la@[p@] { Ptr { a: Ghost(h.la@[p@]) } }
pub fn ld_en(h: &H, p: Ptr) -> (r: Ptr) ensures r@ == h.en@[p@] { Ptr { a: Ghost(h.en@[p@]) } }
pub fn st_el(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { el: Ghost(old(h).el@.insert(p@, v@)), ..*old(h) }) { *h = H { el: Ghost(h.el@.insert(p@, v@)), ..*h }; }
pub fn st_la(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { la: Ghost(old(h).la@.insert(p@, v@)), ..*old(h) }) { *h = H { la: Ghost(h.la@.insert(p@, v@)), ..*h }; }
pub fn st_en(h: &mut H, p: Ptr, v: Ptr) ensures *final(h) == (H { en: Ghost(old(h).en@.insert(p@, v@)), ..*old(h) }) { *h = H { en: Ghost(h.en@.insert(p@, v@)), ..*h }; }
pub fn ld_cell(h: &H, p: Ptr) -> (r: Ptr) requires h.cb@[p@] != 0 ensures r@ == h.c@[p@] { Ptr { a: Ghost(h.c@[p@]) } }
pub fn st_cell(h: &mut H, p: Ptr, v: Ptr) requires old(h).cb@[p@] != 0 ensures *final(h) == (H { c: Ghost(old(h).c@.insert(p@, v@)), ..*old(h) }) { *h = H { c: Ghost(h.c@.insert(p@, v@)), ..*h }; }
// new T *[n]: fresh cells
#[verifier::external_body]
pub fn alloc_cells(h: &mut H, n: u64) -> (r: Ptr)
    ensures r@ != 0, n <= MAXN(),   // more pointers do not fit into memory: operator new does not return
        old(h).blk@[r@] == -1,
        *final(h) == (H { c: final(h).c, cb: final(h).cb, blk: Ghost(old(h).blk@.insert(r@, n as int)), ..*old(h) }),
        forall|p: int| r@ <= p < r@ + n ==> #[trigger] old(h).cb@[p] == 0,
        forall|p: int| #[trigger] final(h).cb@[p] == (if r@ <= p < r@ + n { r@ } else { old(h).cb@[p] }),
        forall|p: int| !(r@ <= p < r@ + n) ==> #[trigger] final(h).c@[p] == old(h).c@[p],
{ unimplemented!() }
// delete [] p
pub fn free_cells(h: &mut H, a: Ptr) requires a@ == 0 || old(h).blk@[a@] >= 0
    ensures a@ == 0 ==> *final(h) == *old(h),
        a@ != 0 ==> *final(h) == (H { cb: final(h).cb, blk: Ghost(old(h).blk@.insert(a@, -1)), ..*old(h) }),
        forall|p: int| a@ != 0 ==> #[trigger] final(h).cb@[p] == (if old(h).cb@[p] == a@ { 0 } else { old(h).cb@[p] }),
{
    *h = H {
        cb: Ghost(if a@ == 0 { h.cb@ } else { IMap::total(|p: int| if h.cb@[p] == a@ { 0 } else { h.cb@[p] }) }),
        blk: Ghost(if a@ == 0 { h.blk@ } else { h.blk@.insert(a@, -1) }), ..*h };
}
// new node: fresh storage for two elements
#[verifier::external_body]
pub fn node_new(h: &mut H) -> (r: Ptr)
    ensures r@ != 0, !old(h).nd@[r@], old(h).e@[r@] is No, old(h).e@[r@ + 1] is No,
        *final(h) == (H { e: Ghost(old(h).e@.insert(r@, Slot::Raw).insert(r@ + 1, Slot::Raw)), nd: Ghost(old(h).nd@.insert(r@, true)), ..*old(h) }) { unimplemented!() }
pub fn node_del(h: &mut H, a: Ptr) requires old(h).nd@[a@], old(h).e@[a@] is Raw, old(h).e@[a@ + 1] is Raw
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::No).insert(a@ + 1, Slot::No)), nd: Ghost(old(h).nd@.insert(a@, false)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::No).insert(a@ + 1, Slot::No)), nd: Ghost(h.nd@.insert(a@, false)), ..*h }; }
// a local variable or temporary of type pair
#[verifier::external_body]
pub fn pair_stack(h: &mut H) -> (r: Ptr) ensures r@ != 0, !old(h).nd@[r@], old(h).e@[r@] is No, old(h).e@[r@ + 1] is No,
    *final(h) == (H { e: Ghost(old(h).e@.insert(r@, Slot::Raw).insert(r@ + 1, Slot::Raw)), ..*old(h) }) { unimplemented!() }
pub fn pair_stack_drop(h: &mut H, a: Ptr) requires el(old(h).e@, a@), el(old(h).e@, a@ + 1)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::No).insert(a@ + 1, Slot::No)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::No).insert(a@ + 1, Slot::No)), ..*h }; }
// == of the keys agrees with the order
#[verifier::external_body]
pub broadcast proof fn ax_cp_eq(a: Val, b: Val) ensures #[trigger] veq(a, b) == (!cp(a, b) && !cp(b, a)) {}
pub broadcast proof fn cp_trans(a: Val, b: Val, c: Val) requires #[trigger] cp(a, b), #[trigger] cp(b, c) ensures cp(a, c) { broadcast use ax_cp_asym, ax_cp_neg; }
pub broadcast group order { ax_cp_irr, ax_cp_asym, ax_cp_eq, cp_trans }

// ---- representation invariant; of map m only the cells [lo,hi) point to nodes
pub open spec fn kv(h: H, n: int) -> Val { ev(h.e@, n) }
pub open spec fn wfm(h: H, m: int, lo: int, hi: int) -> bool {
    &&& m != 0
    &&& h.el@[m] <= h.la@[m] <= h.en@[m]
    &&& h.en@[m] - h.el@[m] <= MAXN()
    &&& forall|p: int| h.el@[m] <= p < h.en@[m] ==> #[trigger] h.cb@[p] == h.el@[m]
    &&& h.el@[m] == 0 ==> h.en@[m] == 0
    &&& h.el@[m] != 0 ==> h.blk@[h.el@[m]] == h.en@[m] - h.el@[m] && h.bo@[h.el@[m]] == m
    &&& forall|p: int| lo <= p < hi ==> (h.own@)(#[trigger] h.c@[p]) == m && (h.idx@)(h.c@[p]) == p - h.el@[m]
    &&& forall|p: int, q: int| lo <= p < q < hi ==> cp(kv(h, #[trigger] h.c@[p]), kv(h, #[trigger] h.c@[q]))
}
pub open spec fn wfx(h: H, x: int, lo: int, hi: int) -> bool {
    &&& forall|m: int| #[trigger] h.vs@[m] ==> if m == x { h.el@[m] <= lo && hi <= h.la@[m] && wfm(h, m, lo, hi) } else { wfm(h, m, h.el@[m], h.la@[m]) }
    &&& forall|n: int| #[trigger] (h.own@)(n) != 0 ==> {
        let m = (h.own@)(n); let p = h.el@[m] + (h.idx@)(n);
        h.vs@[m] && h.nd@[n] && h.c@[p] == n && if m == x { lo <= p < hi } else { h.el@[m] <= p < h.la@[m] }
    }
    &&& forall|n: int| (h.own@)(n) != 0 ==> #[trigger] h.e@[n] is Live && h.e@[n + 1] is Live && n != 0
    &&& forall|n: int, q: int| #[trigger] (h.own@)(n) != 0 && #[trigger] (h.own@)(q) != 0 ==> q != n + 1
    &&& forall|p: int| #[trigger] h.cb@[p] != 0 ==> h.blk@[h.cb@[p]] >= 0
    &&& forall|n: int| #[trigger] h.nd@[n] ==> (h.own@)(n) != 0
}
pub open spec fn wf(h: H) -> bool { wfx(h, 0, 0, 0) }
// the nodes of a map, in order
pub open spec fn sz(h: H, m: int) -> int { h.la@[m] - h.el@[m] }
pub open spec fn ns(h: H, m: int) -> Seq<int> { Seq::new(sz(h, m) as nat, |i: int| h.c@[h.el@[m] + i]) }
// position of a key: all keys before it are smaller, those from there on are not
pub open spec fn lower(h: H, m: int, k: Val, i: int) -> bool {
    &&& 0 <= i <= sz(h, m)
    &&& forall|j: int| 0 <= j < i ==> cp(kv(h, #[trigger] ns(h, m)[j]), k)
    &&& forall|j: int| i <= j < sz(h, m) ==> !cp(kv(h, #[trigger] ns(h, m)[j]), k)
}
pub open spec fn upper(h: H, m: int, k: Val, i: int) -> bool {
    &&& 0 <= i <= sz(h, m)
    &&& forall|j: int| 0 <= j < i ==> !cp(k, kv(h, #[trigger] ns(h, m)[j]))
    &&& forall|j: int| i <= j < sz(h, m) ==> cp(k, kv(h, #[trigger] ns(h, m)[j]))
}
// entry i has the key
pub open spec fn found(h: H, m: int, k: Val, i: int) -> bool { 0 <= i < sz(h, m) && veq(kv(h, ns(h, m)[i]), k) }
pub open spec fn has_key(h: H, m: int, k: Val) -> bool { exists|i: int| #[trigger] found(h, m, k, i) }
pub open spec fn ins_own(h: H, m: int, n: int) -> spec_fn(int) -> int { |q: int| if q == n { m } else { (h.own@)(q) } }
pub open spec fn ins_idx(h: H, m: int, k: int, n: int) -> spec_fn(int) -> int { |q: int| if q == n { k } else if (h.own@)(q) == m && (h.idx@)(q) >= k { (h.idx@)(q) + 1 } else { (h.idx@)(q) } }
pub open spec fn del_own(h: H, n: int) -> spec_fn(int) -> int { |q: int| if q == n { 0 } else { (h.own@)(q) } }
// from a to b map m may have got new nodes and another array and may have released nodes; everything else is as it was
pub open spec fn fr(a: H, b: H, m: int) -> bool {
    &&& b.vs@[m] && forall|q: int| q != m ==> #[trigger] b.vs@[q] == a.vs@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.el@[q] == a.el@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.la@[q] == a.la@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.en@[q] == a.en@[q]
    &&& cells(a, b, m)
    &&& forall|p: int| (a.own@)(p) != m && #[trigger] (b.own@)(p) == m ==> (a.own@)(p) == 0 && a.e@[p] is No && a.e@[p + 1] is No && !a.nd@[p]
    &&& forall|p: int| #[trigger] (a.own@)(p) == m && (b.own@)(p) != m ==> b.e@[p] is No && b.e@[p + 1] is No && !b.nd@[p] && (b.own@)(p) == 0
    &&& forall|p: int| !pof(a, p, m) && !pof(b, p, m) ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|p: int| (a.own@)(p) != m && (b.own@)(p) != m ==> #[trigger] b.nd@[p] == a.nd@[p]
    &&& forall|p: int| (a.own@)(p) != m && #[trigger] (b.own@)(p) != m ==> (b.own@)(p) == (a.own@)(p) && ((a.own@)(p) != 0 ==> (b.idx@)(p) == (a.idx@)(p))
}
// slot p belongs to a node of map m
pub open spec fn pof(h: H, p: int, m: int) -> bool { (h.own@)(p) == m || (h.own@)(p - 1) == m }
pub open spec fn cells(a: H, b: H, m: int) -> bool {
    &&& forall|p: int| #[trigger] b.cb@[p] != 0 && b.cb@[p] != own_arr(b, m) ==> b.cb@[p] == a.cb@[p] && a.cb@[p] != own_arr(a, m)
    &&& forall|p: int| a.cb@[p] != 0 && a.cb@[p] != own_arr(a, m) ==> #[trigger] b.cb@[p] == a.cb@[p]
    &&& forall|p: int| a.cb@[p] != 0 && a.cb@[p] != own_arr(a, m) ==> #[trigger] b.c@[p] == a.c@[p]
    &&& forall|s: int| s != own_arr(a, m) && s != own_arr(b, m) ==> #[trigger] b.blk@[s] == a.blk@[s]
    &&& forall|s: int| s != own_arr(a, m) && s != own_arr(b, m) ==> #[trigger] b.bo@[s] == a.bo@[s]
    &&& own_arr(b, m) != own_arr(a, m) && own_arr(b, m) != 0 ==> a.blk@[own_arr(b, m)] == -1
    &&& own_arr(b, m) != own_arr(a, m) && own_arr(a, m) != 0 ==> b.blk@[own_arr(a, m)] == -1
}
pub open spec fn own_arr(h: H, m: int) -> int { if h.vs@[m] { h.el@[m] } else { 0 } }
// the nodes that are still there hold what they held
pub open spec fn kept(a: H, b: H, m: int) -> bool { forall|n: int| (a.own@)(n) == m && #[trigger] (b.own@)(n) == m ==> b.e@[n] == a.e@[n] && b.e@[n + 1] == a.e@[n + 1] }
pub open spec fn gone(a: H, b: H, m: int) -> bool {
    &&& !b.vs@[m] && forall|q: int| q != m ==> #[trigger] b.vs@[q] == a.vs@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.el@[q] == a.el@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.la@[q] == a.la@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.en@[q] == a.en@[q]
    &&& cells(a, b, m)
    &&& forall|p: int| #[trigger] (a.own@)(p) == m ==> b.e@[p] is No && b.e@[p + 1] is No && !b.nd@[p] && (b.own@)(p) == 0
    &&& forall|p: int| !pof(a, p, m) ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|p: int| (a.own@)(p) != m ==> #[trigger] (b.own@)(p) == (a.own@)(p) && (b.idx@)(p) == (a.idx@)(p)
}

pub proof fn lem_found(h: H, m: int, k: Val, i: int)
    requires wfm(h, m, h.el@[m], h.la@[m]), found(h, m, k, i)
    ensures lower(h, m, k, i), upper(h, m, k, i + 1), has_key(h, m, k)
{
    broadcast use order; broadcast use ax_cp_neg;
    let s = ns(h, m);
    assert forall|j: int| 0 <= j < i implies cp(kv(h, #[trigger] s[j]), k) by { assert(s[j] == h.c@[h.el@[m] + j] && s[i] == h.c@[h.el@[m] + i]); }
    assert forall|j: int| i < j < sz(h, m) implies cp(k, kv(h, #[trigger] s[j])) by { assert(s[j] == h.c@[h.el@[m] + j] && s[i] == h.c@[h.el@[m] + i]); }
    assert(!cp(k, kv(h, s[i])) && !cp(kv(h, s[i]), k));
}
// map m, with its array possibly moved, got node n at position k
pub open spec fn put(a: H, b: H, m: int, k: int, n: int) -> bool {
    &&& putf(a, b, m) && putn(a, b, m, k, n)
}
pub open spec fn putf(a: H, b: H, m: int) -> bool {
    &&& a.vs@[m] && b.vs == a.vs
    &&& forall|q: int| q != m ==> #[trigger] b.el@[q] == a.el@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.la@[q] == a.la@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.en@[q] == a.en@[q]
    &&& sz(b, m) == sz(a, m) + 1 && b.la@[m] <= b.en@[m] && b.en@[m] - b.el@[m] <= MAXN() && b.el@[m] != 0
    &&& b.blk@[b.el@[m]] == b.en@[m] - b.el@[m]
    &&& forall|p: int| b.el@[m] <= p < b.en@[m] ==> #[trigger] b.cb@[p] == b.el@[m]
    &&& b.bo@[b.el@[m]] == m && forall|s: int| s != b.el@[m] ==> #[trigger] b.bo@[s] == a.bo@[s]
    &&& cells(a, b, m)
}
pub open spec fn putn(a: H, b: H, m: int, k: int, n: int) -> bool {
    &&& n != 0 && !a.nd@[n] && a.e@[n] is No && a.e@[n + 1] is No
    &&& b.e@[n] is Live && b.e@[n + 1] is Live
    &&& forall|p: int| p != n && p != n + 1 ==> #[trigger] b.e@[p] == a.e@[p]
    &&& b.nd@ == a.nd@.insert(n, true)
    &&& b.own@ == ins_own(a, m, n) && b.idx@ == ins_idx(a, m, k, n)
    &&& forall|p: int| b.el@[m] <= p < b.la@[m] ==> #[trigger] b.c@[p] == (if p - b.el@[m] < k { a.c@[p - b.el@[m] + a.el@[m]] } else if p - b.el@[m] == k { n } else { a.c@[p - b.el@[m] + a.el@[m] - 1] })
}
// the nodes of the maps hold the same entries as before
pub proof fn lem_put_same(a: H, b: H, m: int, k: int, n: int)
    requires wf(a), put(a, b, m, k, n)
    ensures (a.own@)(n) == 0,
        forall|q: int| #[trigger] (a.own@)(q) != 0 ==> q != n && q != n + 1 && q + 1 != n && b.e@[q] == a.e@[q] && b.e@[q + 1] == a.e@[q + 1]
{
    assert((a.own@)(n) == 0);
    assert forall|q: int| #[trigger] (a.own@)(q) != 0 implies q != n && q != n + 1 && q + 1 != n && b.e@[q] == a.e@[q] && b.e@[q + 1] == a.e@[q + 1] by { assert(a.e@[q] is Live && a.e@[q + 1] is Live); }
}
pub proof fn lem_put_other(a: H, b: H, m: int, k: int, n: int, q: int)
    requires wf(a), put(a, b, m, k, n), b.vs@[q], q != m
    ensures wfm(b, q, b.el@[q], b.la@[q])
{
    lem_put_same(a, b, m, k, n);
    assert(wfm(a, q, a.el@[q], a.la@[q]));
    assert forall|p: int| a.el@[q] <= p < a.en@[q] implies b.cb@[p] == a.cb@[p] && b.c@[p] == a.c@[p] by { assert(a.cb@[p] == a.el@[q]); }
}
pub proof fn lem_put_mine(a: H, b: H, m: int, k: int, n: int)
    requires wf(a), put(a, b, m, k, n), lower(a, m, kv(b, n), k), upper(a, m, kv(b, n), k)
    ensures wfm(b, m, b.el@[m], b.la@[m])
{
    broadcast use order;
    lem_put_same(a, b, m, k, n);
    let el = b.el@[m]; let K = kv(b, n);
    assert(wfm(a, m, a.el@[m], a.la@[m]));
    assert forall|p: int| el <= p < b.la@[m] implies (b.own@)(#[trigger] b.c@[p]) == m && (b.idx@)(b.c@[p]) == p - el by {
        let j = p - el;
        if j < k { assert((a.idx@)(a.c@[j + a.el@[m]]) == j); } else if j > k { assert((a.idx@)(a.c@[j - 1 + a.el@[m]]) == j - 1); }
    }
    assert forall|j: int| 0 <= j < k implies cp(kv(b, #[trigger] b.c@[el + j]), K) by { assert(ns(a, m)[j] == a.c@[a.el@[m] + j]); assert((a.own@)(a.c@[a.el@[m] + j]) == m); }
    assert forall|j: int| k < j < sz(b, m) implies cp(K, kv(b, #[trigger] b.c@[el + j])) by { assert(ns(a, m)[j - 1] == a.c@[a.el@[m] + j - 1]); assert((a.own@)(a.c@[a.el@[m] + j - 1]) == m); }
    assert forall|p: int, q: int| el <= p < q < b.la@[m] implies cp(kv(b, #[trigger] b.c@[p]), kv(b, #[trigger] b.c@[q])) by {
        let i = p - el; let j = q - el;
        assert(b.c@[p] == b.c@[el + i] && b.c@[q] == b.c@[el + j]);
        if i < k && j < k { assert(cp(kv(a, a.c@[a.el@[m] + i]), kv(a, a.c@[a.el@[m] + j]))); assert((a.own@)(a.c@[a.el@[m] + i]) == m && (a.own@)(a.c@[a.el@[m] + j]) == m); }
        else if i > k && j > k { assert(cp(kv(a, a.c@[a.el@[m] + i - 1]), kv(a, a.c@[a.el@[m] + j - 1]))); assert((a.own@)(a.c@[a.el@[m] + i - 1]) == m && (a.own@)(a.c@[a.el@[m] + j - 1]) == m); }
        else if i < k && j > k { assert(cp(kv(b, b.c@[el + i]), K) && cp(K, kv(b, b.c@[el + j]))); }
        else if i < k { assert(cp(kv(b, b.c@[el + i]), K)); }
        else { assert(cp(K, kv(b, b.c@[el + j]))); }
    }
}
pub proof fn lem_put(a: H, b: H, m: int, k: int, n: int)
    requires wf(a), put(a, b, m, k, n), lower(a, m, kv(b, n), k), upper(a, m, kv(b, n), k)
    ensures wf(b), fr(a, b, m), kept(a, b, m), ns(b, m) =~= ns(a, m).insert(k, n), (a.own@)(n) == 0, ns(b, m)[k] == n
{
    let el = b.el@[m];
    assert(wfm(a, m, a.el@[m], a.la@[m]));
    lem_put_same(a, b, m, k, n);
    lem_put_mine(a, b, m, k, n);
    assert forall|q: int| #[trigger] b.vs@[q] && q != m implies wfm(b, q, b.el@[q], b.la@[q]) by { lem_put_other(a, b, m, k, n, q); }
    assert forall|q: int| #[trigger] (b.own@)(q) != 0 implies { let o = (b.own@)(q); let p = b.el@[o] + (b.idx@)(q); b.vs@[o] && b.nd@[q] && b.c@[p] == q && b.el@[o] <= p < b.la@[o] && b.e@[q] is Live && b.e@[q + 1] is Live } by {
        if q != n {
            let o = (a.own@)(q);
            assert(a.c@[a.el@[o] + (a.idx@)(q)] == q && a.e@[q] is Live);
            if o != m { assert(wfm(a, o, a.el@[o], a.la@[o])); assert(a.cb@[a.el@[o] + (a.idx@)(q)] == a.el@[o]); }
            else { let j = (b.idx@)(q); assert(b.c@[el + j] == q); }
        } else { assert(b.c@[el + k] == n); }
    }
    assert forall|q: int| #[trigger] b.nd@[q] implies (b.own@)(q) != 0 by { assert(q == n || a.nd@[q]); }
    assert forall|i: int| 0 <= i < sz(b, m) implies ns(b, m)[i] == ns(a, m).insert(k, n)[i] by { assert(b.c@[el + i] == ns(b, m)[i]); }
}
pub proof fn lem_upper(h: H, m: int, k: Val, i: int)
    requires wfm(h, m, h.el@[m], h.la@[m]), 0 <= i <= sz(h, m),
        forall|j: int| 0 <= j < i ==> !cp(k, kv(h, #[trigger] ns(h, m)[j])), forall|j: int| i <= j < sz(h, m) ==> !cp(kv(h, #[trigger] ns(h, m)[j]), k),
        i < sz(h, m) ==> !veq(kv(h, ns(h, m)[i]), k)
    ensures upper(h, m, k, i)
{
    broadcast use order;
    let s = ns(h, m);
    assert forall|j: int| i <= j < sz(h, m) implies cp(k, kv(h, #[trigger] s[j])) by {
        assert(s[j] == h.c@[h.el@[m] + j] && s[i] == h.c@[h.el@[m] + i]);
        assert(!cp(kv(h, s[i]), k)); assert(cp(k, kv(h, s[i])));
        if i < j { assert(cp(kv(h, s[i]), kv(h, s[j]))); }
    }
}
// b is a with temporaries besides
pub open spec fn tmps(a: H, b: H) -> bool { b == (H { e: b.e, ..a }) && forall|p: int| !(a.e@[p] is No) ==> #[trigger] b.e@[p] == a.e@[p] }
pub proof fn lem_tmp(a: H, b: H) requires wf(a), tmps(a, b) ensures wf(b), forall|m: int| #[trigger] ns(b, m) == ns(a, m)
{
    assert forall|n: int| #[trigger] (a.own@)(n) != 0 implies b.e@[n] is Live && b.e@[n] == a.e@[n] && b.e@[n + 1] is Live && b.e@[n + 1] == a.e@[n + 1] by { assert(a.e@[n] is Live && a.e@[n + 1] is Live); }
    assert forall|m: int| #[trigger] b.vs@[m] implies wfm(b, m, b.el@[m], b.la@[m]) by {
        assert(wfm(a, m, a.el@[m], a.la@[m]));
        assert forall|p: int, q: int| b.el@[m] <= p < q < b.la@[m] implies cp(kv(b, #[trigger] b.c@[p]), kv(b, #[trigger] b.c@[q])) by { assert((a.own@)(a.c@[p]) == m && (a.own@)(a.c@[q]) == m); assert(cp(kv(a, a.c@[p]), kv(a, a.c@[q]))); }
    }
    assert forall|m: int| #[trigger] ns(b, m) == ns(a, m) by { assert(ns(b, m) =~= ns(a, m)); }
}
// temporaries t1 t2 t3 t3+1 lived from a to d
pub open spec fn live4(a: H, b: H, t1: int, t2: int, t3: int) -> bool {
    &&& forall|p: int| p != t1 && p != t2 && p != t3 && p != t3 + 1 ==> #[trigger] b.e@[p] == a.e@[p]
    &&& a.e@[t1] is No && a.e@[t2] is No && a.e@[t3] is No && a.e@[t3 + 1] is No
    &&& b.e@[t1] is Live && b.e@[t2] is Live && b.e@[t3] is Live && b.e@[t3 + 1] is Live
    &&& b == (H { e: b.e, ..a })
}
pub proof fn lem_tmp4(a: H, b: H, c: H, d: H, m: int, t1: int, t2: int, t3: int)
    requires wf(a), a.vs@[m], wf(b), wf(c), live4(a, b, t1, t2, t3), fr(b, c, m), kept(b, c, m),
        d == (H { e: d.e, ..c }), forall|p: int| #[trigger] d.e@[p] == (if p == t1 || p == t2 || p == t3 || p == t3 + 1 { Slot::No } else { c.e@[p] })
    ensures wf(d), fr(a, d, m), kept(a, d, m), ns(d, m) == ns(c, m), forall|n: int| #[trigger] (d.own@)(n) != 0 ==> d.e@[n] == c.e@[n] && d.e@[n + 1] == c.e@[n + 1]
{
    assert forall|n: int| #[trigger] (a.own@)(n) != 0 implies n != t1 && n != t2 && n != t3 && n != t3 + 1 && n + 1 != t1 && n + 1 != t2 && n + 1 != t3 && n != t3 by { assert(a.e@[n] is Live && a.e@[n + 1] is Live); }
    assert forall|n: int| #[trigger] (c.own@)(n) != 0 implies n != t1 && n != t2 && n != t3 && n != t3 + 1 && n + 1 != t1 && n + 1 != t2 && n + 1 != t3 && d.e@[n] == c.e@[n] && d.e@[n + 1] == c.e@[n + 1] by {
        assert(c.e@[n] is Live && c.e@[n + 1] is Live);
        if (a.own@)(n) == 0 { assert((c.own@)(n) == m && (b.own@)(n) != m); assert(b.e@[n] is No && b.e@[n + 1] is No); }
    }
    assert forall|q: int| #[trigger] d.vs@[q] implies wfm(d, q, d.el@[q], d.la@[q]) by {
        assert(wfm(c, q, c.el@[q], c.la@[q]));
        assert forall|p: int, r: int| d.el@[q] <= p < r < d.la@[q] implies cp(kv(d, #[trigger] d.c@[p]), kv(d, #[trigger] d.c@[r])) by { assert((c.own@)(c.c@[p]) == q && (c.own@)(c.c@[r]) == q); assert(cp(kv(c, c.c@[p]), kv(c, c.c@[r]))); }
    }
    assert(ns(d, m) =~= ns(c, m));
    assert forall|p: int| !pof(a, p, m) && !pof(d, p, m) implies #[trigger] d.e@[p] == a.e@[p] by { assert(b.e@[p] == a.e@[p] || p == t1 || p == t2 || p == t3 || p == t3 + 1); assert(c.e@[p] == b.e@[p]); }
    assert forall|n: int| (a.own@)(n) == m && #[trigger] (d.own@)(n) == m implies d.e@[n] == a.e@[n] && d.e@[n + 1] == a.e@[n + 1] by { assert((c.own@)(n) == m); }
    assert(fr(a, d, m));
}
pub proof fn lem_cell(h: H, m: int, p: int)
    requires wf(h), h.vs@[m], h.el@[m] <= p < h.la@[m]
    ensures h.cb@[p] != 0, h.c@[p] != 0, h.e@[h.c@[p]] is Live, h.e@[h.c@[p] + 1] is Live, (h.own@)(h.c@[p]) == m, (h.idx@)(h.c@[p]) == p - h.el@[m], ns(h, m)[p - h.el@[m]] == h.c@[p]
{ assert(wfm(h, m, h.el@[m], h.la@[m])); assert((h.own@)(h.c@[p]) == m); }
pub proof fn lem_el(h: H, m: int) requires wf(h), h.vs@[m] ensures m != 0, h.el@[m] <= h.la@[m] <= h.en@[m], h.en@[m] - h.el@[m] <= MAXN() { assert(wfm(h, m, h.el@[m], h.la@[m])); }
// temporaries are not touched
pub proof fn lem_tmpk(a: H, b: H, c: H, m: int, t: int)
    requires wf(a), a.vs@[m], tmps(a, b), fr(b, c, m), a.e@[t] is No, b.e@[t] is Live
    ensures c.e@[t] == b.e@[t]
{
    if pof(b, t, m) { if (b.own@)(t) == m { assert(a.e@[t] is Live); } else { assert(a.e@[t - 1] is Live && a.e@[t - 1 + 1] is Live); } }
    if pof(c, t, m) { if (c.own@)(t) == m { assert(b.e@[t] is No); } else { assert((c.own@)(t - 1) == m); assert(b.e@[t - 1 + 1] is No); } }
}

pub proof fn lem_low(h: H, m: int, k: Val, i: int) requires lower(h, m, k, i) ensures 0 <= i <= sz(h, m) {}
// the position of a key does not depend on temporaries
pub proof fn lem_part(a: H, b: H, m: int, k: Val, i: int)
    requires wf(a), a.vs@[m], tmps(a, b), lower(a, m, k, i), upper(a, m, k, i)
    ensures lower(b, m, k, i), upper(b, m, k, i)
{
    assert(ns(b, m) =~= ns(a, m));
    assert forall|j: int| 0 <= j < sz(a, m) implies kv(b, #[trigger] ns(a, m)[j]) == kv(a, ns(a, m)[j]) by { lem_cell(a, m, a.el@[m] + j); }
}
pub proof fn lem_refl(a: H, m: int) requires a.vs@[m] ensures fr(a, a, m), kept(a, a, m) {}
pub proof fn lem_frvs(a: H, b: H, m: int) requires fr(a, b, m) ensures b.vs@[m] {}

// b is a without the nodes of m at the positions [lo,hi)
pub open spec fn inr(a: H, m: int, lo: int, hi: int, n: int) -> bool { (a.own@)(n) == m && lo <= (a.idx@)(n) < hi }
pub open spec fn rem_own(a: H, m: int, lo: int, hi: int) -> spec_fn(int) -> int { |q: int| if inr(a, m, lo, hi, q) { 0 } else { (a.own@)(q) } }
pub open spec fn rem(a: H, b: H, m: int, lo: int, hi: int) -> bool {
    &&& forall|p: int| #[trigger] b.e@[p] == (if inr(a, m, lo, hi, p) || inr(a, m, lo, hi, p - 1) { Slot::No } else { a.e@[p] })
    &&& forall|p: int| #[trigger] b.nd@[p] == (a.nd@[p] && !inr(a, m, lo, hi, p))
    &&& b == (H { e: b.e, nd: b.nd, own: b.own, la: b.la, ..a })
}
pub proof fn lem_node(a: H, b: H, m: int, lo: int, hi: int, p: int)
    requires wf(a), a.vs@[m], rem(a, b, m, lo, hi), a.el@[m] <= p < a.la@[m], !(lo <= p - a.el@[m] < hi)
    ensures a.c@[p] != 0, b.e@[a.c@[p]] is Live, b.e@[a.c@[p] + 1] is Live, b.nd@[a.c@[p]], a.cb@[p] != 0, (a.own@)(a.c@[p]) == m, (a.idx@)(a.c@[p]) == p - a.el@[m]
{
    lem_cell(a, m, p); let n = a.c@[p];
    assert((a.own@)(n) != 0); assert(m != 0);
    assert(!inr(a, m, lo, hi, n)); assert(!inr(a, m, lo, hi, n - 1)) by { if (a.own@)(n - 1) == m { assert((a.own@)(n - 1) != 0); } }
    assert(!inr(a, m, lo, hi, n + 1)) by { if (a.own@)(n + 1) == m { assert((a.own@)(n + 1) != 0); } }
}
// one node more
pub proof fn lem_rem1(a: H, b: H, c: H, m: int, lo: int, hi: int, k: int)
    requires wf(a), a.vs@[m], rem(a, b, m, lo, hi), 0 <= k < sz(a, m), k == lo - 1 || k == hi, lo <= hi,
        c == (H { e: c.e, nd: c.nd, la: c.la, own: c.own, ..b }),
        forall|p: int| #[trigger] c.e@[p] == (if p == a.c@[a.el@[m] + k] || p == a.c@[a.el@[m] + k] + 1 { Slot::No } else { b.e@[p] }), forall|p: int| #[trigger] c.nd@[p] == (b.nd@[p] && p != a.c@[a.el@[m] + k])
    ensures rem(a, c, m, if k == hi { lo } else { k }, if k == hi { hi + 1 } else { hi })
{
    let n = ns(a, m)[k]; let lo2 = if k == hi { lo } else { k }; let hi2 = if k == hi { hi + 1 } else { hi };
    lem_cell(a, m, a.el@[m] + k);
    assert forall|q: int| inr(a, m, lo2, hi2, q) == (inr(a, m, lo, hi, q) || q == n) by {
        if (a.own@)(q) == m && (a.idx@)(q) == k { assert((a.own@)(q) != 0); assert(a.c@[a.el@[m] + k] == q); }
    }
    assert forall|p: int| #[trigger] c.e@[p] == (if inr(a, m, lo2, hi2, p) || inr(a, m, lo2, hi2, p - 1) { Slot::No } else { a.e@[p] }) by { assert(c.e@[p] == if p == n || p == n + 1 { Slot::No } else { b.e@[p] }); }
}
pub proof fn lem_rem0(a: H, m: int, k: int) requires m != 0 ensures rem(a, a, m, k, k) {}
// the nodes of all positions from k on are gone
pub proof fn lem_cut(a: H, b: H, m: int, k: int)
    requires wf(a), a.vs@[m], 0 <= k <= sz(a, m), rem(a, b, m, k, sz(a, m)), b.la@[m] == a.el@[m] + k, forall|q: int| q != m ==> #[trigger] b.la@[q] == a.la@[q], b.own@ == rem_own(a, m, k, sz(a, m))
    ensures wf(b), fr(a, b, m), kept(a, b, m), ns(b, m) =~= ns(a, m).take(k)
{
    lem_el(a, m);
    assert forall|n: int| #[trigger] (b.own@)(n) != 0 implies b.e@[n] is Live && b.e@[n + 1] is Live && b.e@[n] == a.e@[n] && b.e@[n + 1] == a.e@[n + 1] by { lem_keep(a, b, m, k, sz(a, m), n); }
    assert forall|q: int| #[trigger] b.vs@[q] implies wfm(b, q, b.el@[q], b.la@[q]) by {
        assert(wfm(a, q, a.el@[q], a.la@[q]));
        assert forall|p: int| b.el@[q] <= p < b.la@[q] implies (b.own@)(#[trigger] b.c@[p]) == q && (b.idx@)(b.c@[p]) == p - b.el@[q] by { assert((a.own@)(a.c@[p]) == q); }
        assert forall|p: int, r: int| b.el@[q] <= p < r < b.la@[q] implies cp(kv(b, #[trigger] b.c@[p]), kv(b, #[trigger] b.c@[r])) by { assert((b.own@)(b.c@[p]) == q && (b.own@)(b.c@[r]) == q); assert(cp(kv(a, a.c@[p]), kv(a, a.c@[r]))); }
    }
    assert forall|n: int| #[trigger] (b.own@)(n) != 0 implies { let o = (b.own@)(n); let p = b.el@[o] + (b.idx@)(n); b.vs@[o] && b.nd@[n] && b.c@[p] == n && b.el@[o] <= p < b.la@[o] } by { assert((a.own@)(n) != 0); }
    assert forall|n: int| #[trigger] b.nd@[n] implies (b.own@)(n) != 0 by { assert(a.nd@[n]); }
    assert forall|n: int, q: int| #[trigger] (b.own@)(n) != 0 && #[trigger] (b.own@)(q) != 0 implies q != n + 1 by { assert((a.own@)(n) != 0 && (a.own@)(q) != 0); }
}
pub proof fn lem_keep(a: H, b: H, m: int, lo: int, hi: int, n: int)
    requires wf(a), m != 0, rem(a, b, m, lo, hi), (a.own@)(n) != 0, !inr(a, m, lo, hi, n)
    ensures b.e@[n] == a.e@[n], b.e@[n + 1] == a.e@[n + 1], b.e@[n] is Live, b.e@[n + 1] is Live
{
    assert(a.e@[n] is Live && a.e@[n + 1] is Live);
    assert(!inr(a, m, lo, hi, n - 1)) by { if (a.own@)(n - 1) == m { assert((a.own@)(n - 1) != 0); } }
    assert(!inr(a, m, lo, hi, n + 1)) by { if (a.own@)(n + 1) == m { assert((a.own@)(n + 1) != 0); } }
}

pub proof fn lem_arr(h: H, m: int) requires wf(h), h.vs@[m] ensures h.el@[m] != 0 ==> h.blk@[h.el@[m]] >= 0 { assert(wfm(h, m, h.el@[m], h.la@[m])); }
// all nodes and the array of m are gone
pub proof fn lem_gone(a: H, r: H, b: H, m: int)
    requires wf(a), a.vs@[m], rem(a, r, m, 0, sz(a, m)), r.la == a.la,
        b == (H { vs: b.vs, own: b.own, cb: b.cb, blk: b.blk, ..r }), b.vs@ == a.vs@.insert(m, false), b.own@ == rem_own(a, m, 0, sz(a, m)),
        a.el@[m] == 0 ==> b.cb == a.cb && b.blk == a.blk,
        a.el@[m] != 0 ==> b.blk@ == a.blk@.insert(a.el@[m], -1),
        forall|p: int| a.el@[m] != 0 ==> #[trigger] b.cb@[p] == (if a.cb@[p] == a.el@[m] { 0 } else { a.cb@[p] })
    ensures wf(b), gone(a, b, m)
{
    lem_el(a, m); assert(wfm(a, m, a.el@[m], a.la@[m]));
    assert forall|n: int| #[trigger] (a.own@)(n) == m implies inr(a, m, 0, sz(a, m), n) by { assert((a.own@)(n) != 0); }
    assert forall|n: int| #[trigger] (b.own@)(n) != 0 implies (a.own@)(n) != 0 && (b.own@)(n) == (a.own@)(n) && (a.own@)(n) != m && b.e@[n] is Live && b.e@[n + 1] is Live && b.e@[n] == a.e@[n] && b.e@[n + 1] == a.e@[n + 1] by { lem_keep(a, r, m, 0, sz(a, m), n); }
    assert forall|q: int| #[trigger] b.vs@[q] implies wfm(b, q, b.el@[q], b.la@[q]) by {
        assert(wfm(a, q, a.el@[q], a.la@[q])); assert(q != m);
        assert(a.el@[q] != 0 ==> a.el@[q] != a.el@[m]);
        assert forall|p: int| b.el@[q] <= p < b.en@[q] implies #[trigger] b.cb@[p] == b.el@[q] by { assert(a.cb@[p] == a.el@[q]); }
        assert forall|p: int| b.el@[q] <= p < b.la@[q] implies (b.own@)(#[trigger] b.c@[p]) == q && (b.idx@)(b.c@[p]) == p - b.el@[q] by { assert((a.own@)(a.c@[p]) == q); }
        assert forall|p: int, r: int| b.el@[q] <= p < r < b.la@[q] implies cp(kv(b, #[trigger] b.c@[p]), kv(b, #[trigger] b.c@[r])) by { assert((b.own@)(b.c@[p]) == q && (b.own@)(b.c@[r]) == q); assert(cp(kv(a, a.c@[p]), kv(a, a.c@[r]))); }
    }
    assert forall|n: int| #[trigger] b.nd@[n] implies (b.own@)(n) != 0 by { assert(a.nd@[n]); }
    assert forall|n: int, q: int| #[trigger] (b.own@)(n) != 0 && #[trigger] (b.own@)(q) != 0 implies q != n + 1 by { assert((a.own@)(n) != 0 && (a.own@)(q) != 0); }
}

// m is new and empty, with an array of its own
pub open spec fn newf(a: H, b: H, m: int) -> bool {
    &&& m != 0 && !a.vs@[m]
    &&& forall|q: int| q != m ==> #[trigger] b.el@[q] == a.el@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.la@[q] == a.la@[q]
    &&& forall|q: int| q != m ==> #[trigger] b.en@[q] == a.en@[q]
    &&& b.la@[m] == b.el@[m] && b.el@[m] != 0 && b.el@[m] <= b.en@[m] <= b.el@[m] + MAXN()
    &&& a.blk@[b.el@[m]] == -1 && b.blk@ == a.blk@.insert(b.el@[m], b.en@[m] - b.el@[m])
    &&& forall|p: int| b.el@[m] <= p < b.en@[m] ==> #[trigger] a.cb@[p] == 0
    &&& forall|p: int| #[trigger] b.cb@[p] == (if b.el@[m] <= p < b.en@[m] { b.el@[m] } else { a.cb@[p] })
    &&& forall|p: int| !(b.el@[m] <= p < b.en@[m]) ==> #[trigger] b.c@[p] == a.c@[p]
    &&& b == (H { el: b.el, la: b.la, en: b.en, blk: b.blk, cb: b.cb, c: b.c, bo: Ghost(a.bo@.insert(b.el@[m], m)), vs: Ghost(a.vs@.insert(m, true)), ..a })
}
pub proof fn lem_new(a: H, b: H, m: int) requires wf(a), newf(a, b, m) ensures wf(b), fr(a, b, m), kept(a, b, m), forall|n: int| #[trigger] (b.own@)(n) != m
{
    assert forall|n: int| #[trigger] (a.own@)(n) != m by { if (a.own@)(n) != 0 { assert(a.vs@[(a.own@)(n)]); } }
    assert forall|q: int| #[trigger] b.vs@[q] && q != m implies wfm(b, q, b.el@[q], b.la@[q]) by {
        assert(wfm(a, q, a.el@[q], a.la@[q]));
        assert forall|p: int| b.el@[q] <= p < b.en@[q] implies #[trigger] b.cb@[p] == b.el@[q] && b.c@[p] == a.c@[p] by { assert(a.cb@[p] == a.el@[q]); }
        assert forall|p: int| b.el@[q] <= p < b.la@[q] implies (b.own@)(#[trigger] b.c@[p]) == q && (b.idx@)(b.c@[p]) == p - b.el@[q] by { assert(b.cb@[p] == b.el@[q]); assert((a.own@)(a.c@[p]) == q); }
        assert forall|p: int, r: int| b.el@[q] <= p < r < b.la@[q] implies cp(kv(b, #[trigger] b.c@[p]), kv(b, #[trigger] b.c@[r])) by { assert(b.cb@[p] == b.el@[q] && b.cb@[r] == b.el@[q]); assert(cp(kv(a, a.c@[p]), kv(a, a.c@[r]))); }
    }
    assert(wfm(b, m, b.el@[m], b.la@[m]));
    assert forall|n: int| #[trigger] (b.own@)(n) != 0 implies { let o = (b.own@)(n); let p = b.el@[o] + (b.idx@)(n); b.vs@[o] && b.nd@[n] && b.c@[p] == n && b.el@[o] <= p < b.la@[o] && b.e@[n] is Live && b.e@[n + 1] is Live && n != 0 } by {
        let o = (a.own@)(n); assert(a.e@[n] is Live); assert(wfm(a, o, a.el@[o], a.la@[o])); assert(a.cb@[a.el@[o] + (a.idx@)(n)] == a.el@[o]); }
    assert forall|n: int| #[trigger] b.nd@[n] implies (b.own@)(n) != 0 by { assert(a.nd@[n]); }
    assert forall|n: int, q: int| #[trigger] (b.own@)(n) != 0 && #[trigger] (b.own@)(q) != 0 implies q != n + 1 by { assert((a.own@)(n) != 0 && (a.own@)(q) != 0); }
}
// another map than m has not changed
pub proof fn lem_other(a: H, b: H, m: int, o: int)
    requires wf(a), a.vs@[o], o != m, m != 0, fr(a, b, m), a.vs@[m] ==> own_arr(a, m) == 0 || own_arr(a, m) == a.el@[m]
    ensures b.vs@[o], b.el@[o] == a.el@[o], b.la@[o] == a.la@[o], b.en@[o] == a.en@[o], ns(b, o) == ns(a, o),
        forall|p: int| a.el@[o] <= p < a.la@[o] ==> #[trigger] b.c@[p] == a.c@[p] && b.cb@[p] != 0 && b.e@[a.c@[p]] == a.e@[a.c@[p]] && b.e@[a.c@[p] + 1] == a.e@[a.c@[p] + 1] && (b.own@)(a.c@[p]) == o
{
    assert(wfm(a, o, a.el@[o], a.la@[o]));
    if a.vs@[m] { assert(wfm(a, m, a.el@[m], a.la@[m])); }
    assert forall|p: int| a.el@[o] <= p < a.la@[o] implies #[trigger] b.c@[p] == a.c@[p] && b.cb@[p] != 0 && b.e@[a.c@[p]] == a.e@[a.c@[p]] && b.e@[a.c@[p] + 1] == a.e@[a.c@[p] + 1] && (b.own@)(a.c@[p]) == o by {
        assert(a.cb@[p] == a.el@[o]); assert(a.el@[o] != own_arr(a, m));
        lem_cell(a, o, p); let n = a.c@[p];
        assert((a.own@)(n) == o);
        if (b.own@)(n) == m { assert((a.own@)(n) == 0); }
        assert(!pof(a, n, m) && !pof(a, n + 1, m)) by { if (a.own@)(n - 1) == m { assert((a.own@)(n - 1) != 0 && (a.own@)(n) != 0); } if (a.own@)(n + 1) == m { assert((a.own@)(n + 1) != 0 && (a.own@)(n) != 0); } }
        assert(!pof(b, n, m) && !pof(b, n + 1, m)) by {
            assert(a.e@[n] is Live && a.e@[n + 1] is Live);
            if (b.own@)(n - 1) == m { assert(a.e@[n - 1 + 1] is No); }
            if (b.own@)(n + 1) == m { assert(a.e@[n + 1] is No); }
        }
    }
    assert(ns(b, o) =~= ns(a, o));
}
pub open spec fn copied(a: H, b: H, m: int, o: int, k: int) -> bool {
    &&& wf(b) && fr(a, b, m) && sz(b, m) == k && 0 <= k <= sz(a, o)
    &&& forall|j: int| 0 <= j < k ==> (a.own@)(#[trigger] ns(b, m)[j]) == 0
    &&& forall|j: int| 0 <= j < k ==> kv(b, #[trigger] ns(b, m)[j]) == kv(a, ns(a, o)[j])
    &&& forall|j: int| 0 <= j < k ==> ev(b.e@, #[trigger] ns(b, m)[j] + 1) == ev(a.e@, ns(a, o)[j] + 1)
}
// a is the start, b a state on the way, c the next one with node n in addition
pub proof fn lem_copy1(a: H, b: H, c: H, m: int, o: int, k: int, n: int)
    requires wf(a), !a.vs@[m], a.vs@[o], forall|q: int| #[trigger] (a.own@)(q) != m, copied(a, b, m, o, k), put(b, c, m, k, n), c.el@[m] == b.el@[m], k < sz(a, o), c.e@[n] == a.e@[ns(a, o)[k]], c.e@[n + 1] == a.e@[ns(a, o)[k] + 1]
    ensures copied(a, c, m, o, k + 1)
{
    broadcast use order;
    assert(wfm(a, o, a.el@[o], a.la@[o]));
    let K = kv(c, n);
    assert forall|j: int| 0 <= j < k implies cp(kv(b, #[trigger] ns(b, m)[j]), K) by { assert(ns(a, o)[j] == a.c@[a.el@[o] + j] && ns(a, o)[k] == a.c@[a.el@[o] + k]); assert(cp(kv(a, a.c@[a.el@[o] + j]), kv(a, a.c@[a.el@[o] + k]))); }
    lem_put(b, c, m, k, n);
    lem_grow(a, b, c, m);
    assert(ns(c, m).len() == k + 1);
    assert forall|j: int| 0 <= j < k + 1 implies (a.own@)(#[trigger] ns(c, m)[j]) == 0 && kv(c, ns(c, m)[j]) == kv(a, ns(a, o)[j]) && ev(c.e@, ns(c, m)[j] + 1) == ev(a.e@, ns(a, o)[j] + 1) by {
        if j < k { assert(ns(c, m)[j] == ns(b, m)[j]); lem_cell(b, m, b.el@[m] + j); let q = ns(b, m)[j]; assert((b.own@)(q) == m && (c.own@)(q) == m); }
        else { assert(ns(c, m)[j] == n); if (a.own@)(n) != 0 { lem_own(a, b, m, n); } }
    }
}
pub proof fn lem_own(a: H, b: H, m: int, n: int) requires wf(a), fr(a, b, m), (a.own@)(n) != 0, (a.own@)(n) != m ensures (b.own@)(n) == (a.own@)(n)
{ if (b.own@)(n) == m { assert((a.own@)(n) == 0); } }
pub proof fn lem_grow(a: H, b: H, c: H, m: int)
    requires wf(a), wf(b), wf(c), !a.vs@[m], forall|q: int| #[trigger] (a.own@)(q) != m, fr(a, b, m), fr(b, c, m), c.el@[m] == b.el@[m], forall|q: int| (b.own@)(q) == m ==> #[trigger] (c.own@)(q) == m
    ensures fr(a, c, m)
{
    assert(own_arr(a, m) == 0 && own_arr(b, m) == own_arr(c, m));
    assert(cells(a, c, m)) by {
        assert(wfm(b, m, b.el@[m], b.la@[m]));
        assert forall|p: int| a.cb@[p] != 0 implies #[trigger] c.cb@[p] == a.cb@[p] && c.c@[p] == a.c@[p] by { assert(b.cb@[p] == a.cb@[p]); assert(b.c@[p] == a.c@[p]); assert(a.blk@[a.cb@[p]] >= 0); }
        assert forall|p: int| #[trigger] c.cb@[p] != 0 && c.cb@[p] != own_arr(c, m) implies c.cb@[p] == a.cb@[p] by { assert(b.cb@[p] == c.cb@[p]); }
        assert forall|s: int| s != own_arr(a, m) && s != own_arr(c, m) implies #[trigger] c.blk@[s] == a.blk@[s] by { assert(b.blk@[s] == a.blk@[s]); }
        assert forall|s: int| s != own_arr(a, m) && s != own_arr(c, m) implies #[trigger] c.bo@[s] == a.bo@[s] by { assert(b.bo@[s] == a.bo@[s]); }
    }
    assert forall|p: int| #[trigger] (c.own@)(p) == m implies (a.own@)(p) == 0 && a.e@[p] is No && a.e@[p + 1] is No && !a.nd@[p] by {
        if (b.own@)(p) != m { assert((b.own@)(p) == 0); if (a.own@)(p) != 0 { lem_own(a, b, m, p); }
            assert(b.nd@[p] == a.nd@[p]);
            assert(!pof(b, p, m) && !pof(b, p + 1, m)) by { if (b.own@)(p - 1) == m { assert((c.own@)(p - 1) == m); assert((c.own@)(p - 1) != 0 && (c.own@)(p) != 0); } if (b.own@)(p + 1) == m { assert((c.own@)(p + 1) == m && (c.own@)(p + 1) != 0 && (c.own@)(p) != 0); } }
            assert(!pof(a, p, m) && !pof(a, p + 1, m)); assert(b.e@[p] == a.e@[p] && b.e@[p + 1] == a.e@[p + 1]); }
    }
    assert forall|p: int| !pof(a, p, m) && !pof(c, p, m) implies #[trigger] c.e@[p] == a.e@[p] by { assert(!pof(b, p, m)); assert(b.e@[p] == a.e@[p]); }
    assert forall|p: int| (a.own@)(p) != m && (c.own@)(p) != m implies #[trigger] c.nd@[p] == a.nd@[p] by { assert((b.own@)(p) != m); assert(b.nd@[p] == a.nd@[p]); }
    assert forall|p: int| (a.own@)(p) != m && #[trigger] (c.own@)(p) != m implies (c.own@)(p) == (a.own@)(p) && ((a.own@)(p) != 0 ==> (c.idx@)(p) == (a.idx@)(p)) by { assert((b.own@)(p) != m); }
    assert forall|q: int| q != m implies #[trigger] c.vs@[q] == a.vs@[q] by { assert(b.vs@[q] == a.vs@[q]); }
    assert forall|q: int| q != m implies #[trigger] c.el@[q] == a.el@[q] by { assert(b.el@[q] == a.el@[q]); }
    assert forall|q: int| q != m implies #[trigger] c.la@[q] == a.la@[q] by { assert(b.la@[q] == a.la@[q]); }
    assert forall|q: int| q != m implies #[trigger] c.en@[q] == a.en@[q] by { assert(b.en@[q] == a.en@[q]); }
}

pub proof fn lem_notown(a: H, m: int, q: int) requires wf(a), m != 0, !a.vs@[m] ensures (a.own@)(q) != m { if (a.own@)(q) == m { assert((a.own@)(q) != 0); } }
pub proof fn lem_copy0(a: H, b: H, m: int, o: int) requires wf(a), a.vs@[o], wf(b), fr(a, b, m), sz(b, m) == 0 ensures copied(a, b, m, o, 0) { lem_el(a, o); }
pub proof fn lem_kept0(a: H, b: H, m: int) requires forall|q: int| #[trigger] (a.own@)(q) != m ensures kept(a, b, m) {}
pub proof fn lem_own_cells(h: H, m: int) requires wf(h), h.vs@[m] ensures forall|p: int| h.el@[m] <= p < h.en@[m] ==> #[trigger] h.cb@[p] == h.el@[m], h.el@[m] != 0 ==> h.blk@[h.el@[m]] == h.en@[m] - h.el@[m] && h.bo@[h.el@[m]] == m, h.el@[m] == 0 ==> h.en@[m] == 0 { assert(wfm(h, m, h.el@[m], h.la@[m])); }
