// ---- heap of the tree family: the links and colours of nodes and headers, the entries in the nodes, what is allocated
// (1: a node, 2: the header of a live tree); ghost: the nodes of every tree in order, the tree a node belongs to, its position there,
// the positions its subtree covers, and the number of black nodes on each way down from it
pub struct H {
    pub e: Ghost<IMap<int, Slot>>,
    pub pa: Ghost<IMap<int, int>>, pub le: Ghost<IMap<int, int>>, pub ri: Ghost<IMap<int, int>>, pub co: Ghost<IMap<int, bool>>,
    pub st: Ghost<IMap<int, int>>,
    pub ns: Ghost<spec_fn(int) -> Seq<int>>,
    pub mr: Ghost<spec_fn(int) -> bool>,                  // during a removal: a child of the node may come back red
    pub own: Ghost<spec_fn(int) -> int>, pub idx: Ghost<spec_fn(int) -> int>, pub lo: Ghost<spec_fn(int) -> int>, pub hi: Ghost<spec_fn(int) -> int>, pub bh: Ghost<spec_fn(int) -> int>,
}
#[derive(Copy, Clone)]
pub struct Edge { pub n: Ghost<int>, pub f: Ghost<int> }
impl View for Edge { type V = (int, int); open spec fn view(&self) -> (int, int) { (self.n@, self.f@) } }
pub fn mk_edge_pa(p: Ptr) -> (r: Edge) ensures r@ == (p@, 0int) { Edge { n: Ghost(p@), f: Ghost(0int) } }
pub fn mk_edge_le(p: Ptr) -> (r: Edge) ensures r@ == (p@, 1int) { Edge { n: Ghost(p@), f: Ghost(1int) } }
pub fn mk_edge_ri(p: Ptr) -> (r: Edge) ensures r@ == (p@, 2int) { Edge { n: Ghost(p@), f: Ghost(2int) } }
#[verifier::external_body]
pub fn edge_eq(a: Edge, b: Edge) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub fn arb_edge() -> (r: Edge) { Edge { n: Ghost(0int), f: Ghost(0int) } }
pub open spec fn al(h: H, p: int) -> bool { h.st@[p] != 0 }
pub fn ld_pa(h: &H, p: Ptr) -> (r: Ptr) requires al(*h, p@) ensures r@ == h.pa@[p@] { Ptr { a: Ghost(h.pa@[p@]) } }
pub fn ld_le(h: &H, p: Ptr) -> (r: Ptr) requires al(*h, p@) ensures r@ == h.le@[p@] { Ptr { a: Ghost(h.le@[p@]) } }
pub fn ld_ri(h: &H, p: Ptr) -> (r: Ptr) requires al(*h, p@) ensures r@ == h.ri@[p@] { Ptr { a: Ghost(h.ri@[p@]) } }
#[verifier::external_body]
pub fn ld_co(h: &H, p: Ptr) -> (r: bool) requires al(*h, p@) ensures r == h.co@[p@] { unimplemented!() }
pub fn st_pa(h: &mut H, p: Ptr, v: Ptr) requires al(*old(h), p@) ensures *final(h) == (H { pa: Ghost(old(h).pa@.insert(p@, v@)), ..*old(h) }) { *h = H { pa: Ghost(h.pa@.insert(p@, v@)), ..*h }; }
pub fn st_le(h: &mut H, p: Ptr, v: Ptr) requires al(*old(h), p@) ensures *final(h) == (H { le: Ghost(old(h).le@.insert(p@, v@)), ..*old(h) }) { *h = H { le: Ghost(h.le@.insert(p@, v@)), ..*h }; }
pub fn st_ri(h: &mut H, p: Ptr, v: Ptr) requires al(*old(h), p@) ensures *final(h) == (H { ri: Ghost(old(h).ri@.insert(p@, v@)), ..*old(h) }) { *h = H { ri: Ghost(h.ri@.insert(p@, v@)), ..*h }; }
pub fn st_co(h: &mut H, p: Ptr, v: bool) requires al(*old(h), p@) ensures *final(h) == (H { co: Ghost(old(h).co@.insert(p@, v)), ..*old(h) }) { *h = H { co: Ghost(h.co@.insert(p@, v)), ..*h }; }
// an edge: the address of one of the links of a node
pub open spec fn get(h: H, e: (int, int)) -> int { if e.1 == 0 { h.pa@[e.0] } else if e.1 == 1 { h.le@[e.0] } else { h.ri@[e.0] } }
pub open spec fn put(h: H, e: (int, int), v: int) -> H {
    if e.1 == 0 { H { pa: Ghost(h.pa@.insert(e.0, v)), ..h } } else if e.1 == 1 { H { le: Ghost(h.le@.insert(e.0, v)), ..h } } else { H { ri: Ghost(h.ri@.insert(e.0, v)), ..h } }
}
pub fn ld_edge(h: &H, e: Edge) -> (r: Ptr) requires al(*h, e@.0), 0 <= e@.1 <= 2 ensures r@ == get(*h, e@) { Ptr { a: Ghost(get(*h, e@)) } }
pub fn st_edge(h: &mut H, e: Edge, v: Ptr) requires al(*old(h), e@.0), 0 <= e@.1 <= 2 ensures *final(h) == put(*old(h), e@, v@)
{ *h = H { pa: Ghost(put(*h, e@, v@).pa@), le: Ghost(put(*h, e@, v@).le@), ri: Ghost(put(*h, e@, v@).ri@), ..*h }; }
// new node: fresh storage, nothing initialized
#[verifier::external_body]
pub fn node_new(h: &mut H) -> (r: Ptr)
    ensures r@ != 0, !al(*old(h), r@), old(h).e@[r@] is No,
        *final(h) == (H { e: Ghost(old(h).e@.insert(r@, Slot::Raw)), st: Ghost(old(h).st@.insert(r@, 1)), ..*old(h) }) { unimplemented!() }
// release of a node whose entry has been destroyed
pub fn node_del(h: &mut H, a: Ptr) requires old(h).st@[a@] == 1, old(h).e@[a@] is Raw
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::No)), st: Ghost(old(h).st@.insert(a@, 0)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::No)), st: Ghost(h.st@.insert(a@, 0)), ..*h }; }

// ---- short names
pub open spec fn own(h: H, n: int) -> int { (h.own@)(n) }
pub open spec fn idx(h: H, n: int) -> int { (h.idx@)(n) }
pub open spec fn lo(h: H, n: int) -> int { (h.lo@)(n) }
pub open spec fn hi(h: H, n: int) -> int { (h.hi@)(n) }
pub open spec fn bh(h: H, n: int) -> int { if n == 0 { 0 } else { (h.bh@)(n) } }
pub open spec fn ns(h: H, t: int) -> Seq<int> { (h.ns@)(t) }
pub open spec fn red(h: H, n: int) -> bool { n != 0 && h.co@[n] }
pub open spec fn blk(h: H, n: int) -> int { if h.co@[n] { 0 } else { 1 } }

// ---- structure: node n of tree t. Every node covers a range of positions that its children divide
pub open spec fn wn(h: H, t: int, n: int) -> bool {
    let l = h.le@[n]; let r = h.ri@[n]; let p = h.pa@[n];
    &&& n != 0 && h.st@[n] == 1 && h.e@[n] is Live
    &&& 0 <= lo(h, n) <= idx(h, n) < hi(h, n) <= ns(h, t).len()
    &&& ns(h, t)[idx(h, n)] == n
    &&& l == 0 ==> lo(h, n) == idx(h, n)
    &&& l != 0 ==> own(h, l) == t && h.pa@[l] == n && lo(h, l) == lo(h, n) && hi(h, l) == idx(h, n)
    &&& r == 0 ==> hi(h, n) == idx(h, n) + 1
    &&& r != 0 ==> own(h, r) == t && h.pa@[r] == n && lo(h, r) == idx(h, n) + 1 && hi(h, r) == hi(h, n)
    &&& p == t ==> h.pa@[t] == n
    &&& p != t ==> own(h, p) == t && (if idx(h, n) < idx(h, p) { h.le@[p] == n } else { h.ri@[p] == n })
}
pub open spec fn wh(h: H, t: int) -> bool {
    &&& t != 0 && h.st@[t] == 2 && own(h, t) == 0 && h.le@[t] == 0 && h.ri@[t] == 0 && h.co@[t]
    &&& (h.pa@[t] == 0) == (ns(h, t).len() == 0)
    &&& h.pa@[t] != 0 ==> own(h, h.pa@[t]) == t && h.pa@[h.pa@[t]] == t && lo(h, h.pa@[t]) == 0 && hi(h, h.pa@[t]) == ns(h, t).len()
    &&& forall|i: int| 0 <= i < ns(h, t).len() ==> own(h, #[trigger] ns(h, t)[i]) == t && idx(h, ns(h, t)[i]) == i
}
// balance: equally many black nodes on both sides
pub open spec fn bn(h: H, n: int) -> bool {
    &&& bh(h, h.le@[n]) == bh(h, h.ri@[n])
    &&& bh(h, n) == bh(h, h.le@[n]) + blk(h, n)
    &&& bh(h, h.le@[n]) >= 0
}
pub open spec fn ws(h: H, t: int) -> bool {
    &&& wh(h, t)
    &&& forall|n: int| own(h, n) == t ==> #[trigger] wn(h, t, n) && bn(h, n)
}
// ---- colours: no red right child, no two red nodes in a row
pub open spec fn cs(h: H, n: int) -> bool { !red(h, h.ri@[n]) && !(red(h, n) && red(h, h.le@[n])) }
pub open spec fn csx(h: H, n: int) -> bool { cs(h, n) }
pub open spec fn wc(h: H, t: int) -> bool {
    &&& !red(h, h.pa@[t])
    &&& forall|n: int| own(h, n) == t ==> #[trigger] cs(h, n)
}

// ---- what the basic steps do
pub open spec fn rotl(h: H, a: int) -> H {
    let b = h.ri@[a]; let x = h.le@[b];
    let p1 = if x != 0 { h.pa@.insert(x, a) } else { h.pa@ };
    let p2 = p1.insert(b, p1[a]);
    H { ri: Ghost(h.ri@.insert(a, x)), le: Ghost(h.le@.insert(b, a)), co: Ghost(h.co@.insert(b, h.co@[a]).insert(a, true)), pa: Ghost(p2.insert(a, b)),
        lo: Ghost(|n: int| if n == b { lo(h, a) } else { lo(h, n) }), hi: Ghost(|n: int| if n == a { idx(h, b) } else { hi(h, n) }),
        bh: Ghost(|n: int| if n == b { bh(h, a) } else if n == a { bh(h, h.le@[a]) } else { (h.bh@)(n) }), ..h }
}
pub open spec fn rotr(h: H, b: int) -> H {
    let a = h.le@[b]; let x = h.ri@[a];
    let p1 = if x != 0 { h.pa@.insert(x, b) } else { h.pa@ };
    let p2 = p1.insert(a, p1[b]);
    H { le: Ghost(h.le@.insert(b, x)), ri: Ghost(h.ri@.insert(a, b)), co: Ghost(h.co@.insert(a, h.co@[b]).insert(b, true)), pa: Ghost(p2.insert(b, a)),
        hi: Ghost(|n: int| if n == a { hi(h, b) } else { hi(h, n) }), lo: Ghost(|n: int| if n == b { idx(h, a) + 1 } else { lo(h, n) }),
        bh: Ghost(|n: int| if n == a { bh(h, b) } else if n == b { bh(h, h.ri@[b]) } else { (h.bh@)(n) }), ..h }
}
pub open spec fn tog(h: H, n: int) -> int { bh(h, n) + (if h.co@[n] { 1int } else { -1int }) }
pub open spec fn flip(h: H, n: int) -> H {
    let l = h.le@[n]; let r = h.ri@[n];
    let c1 = h.co@.insert(n, !h.co@[n]); let c2 = c1.insert(l, !c1[l]); let c3 = c2.insert(r, !c2[r]);
    H { co: Ghost(c3), bh: Ghost(|m: int| if m == l || m == r { tog(h, m) } else if m == n { tog(h, l) + (if h.co@[n] { 1int } else { 0int }) } else { (h.bh@)(m) }), ..h }
}
pub open spec fn fx1(h: H, n: int) -> (H, int) { if red(h, h.ri@[n]) && !red(h, h.le@[n]) { (rotl(h, n), h.ri@[n]) } else { (h, n) } }
pub open spec fn fx2(h: H, n: int) -> (H, int) { if red(h, h.le@[n]) && red(h, h.le@[h.le@[n]]) { (rotr(h, n), h.le@[n]) } else { (h, n) } }
pub open spec fn fx3(h: H, n: int) -> (H, int) { if red(h, h.le@[n]) && red(h, h.ri@[n]) { (flip(h, n), n) } else { (h, n) } }
pub open spec fn fx(h: H, n: int) -> (H, int) { let a = fx1(h, n); let b = fx2(a.0, a.1); fx3(b.0, b.1) }
// n and the two levels below it are there and are different nodes
pub open spec fn okfx(h: H, n: int) -> bool {
    let l = h.le@[n]; let r = h.ri@[n];
    &&& al(h, n)
    &&& l != 0 ==> al(h, l) && l != n && l != r && h.le@[l] != n && h.ri@[l] != n && (h.le@[l] != 0 ==> al(h, h.le@[l])) && (h.ri@[l] != 0 ==> al(h, h.ri@[l]))
    &&& r != 0 ==> al(h, r) && r != n && h.le@[r] != n && h.ri@[r] != n && (h.le@[r] != 0 ==> al(h, h.le@[r])) && (h.ri@[r] != 0 ==> al(h, h.ri@[r]))
}
// e is the edge that leads to node a
pub open spec fn eo(h: H, t: int, e: (int, int), a: int) -> bool {
    &&& own(h, a) == t && a != 0 && t != 0 && e.0 == h.pa@[a]
    &&& e.0 == t ==> e.1 == 0
    &&& e.0 != t ==> own(h, e.0) == t && (e.1 == 1 && hi(h, a) == idx(h, e.0) || e.1 == 2 && lo(h, a) == idx(h, e.0) + 1)
}
// what a node m outside of the places that changed keeps
pub open spec fn kept(a: H, b: H, m: int) -> bool { b.le@[m] == a.le@[m] && b.ri@[m] == a.ri@[m] && b.co@[m] == a.co@[m] && bh(b, m) == bh(a, m) }
pub proof fn lem_rotl(h: H, t: int, e: (int, int), a: int)
    requires ws(put(h, e, a), t), eo(put(h, e, a), t, e, a), red(h, h.ri@[a])
    ensures ws(put(rotl(h, a), e, h.ri@[a]), t), eo(put(rotl(h, a), e, h.ri@[a]), t, e, h.ri@[a])
{
    let g = put(h, e, a); let b = h.ri@[a]; let x = h.le@[b]; let f = put(rotl(h, a), e, b);
    assert(wn(g, t, a)); assert(wn(g, t, b)); if x != 0 { assert(wn(g, t, x)); }
    if e.0 != t { assert(wn(g, t, e.0)); }
    assert forall|n: int| own(f, n) == t implies #[trigger] wn(f, t, n) && bn(f, n) by { assert(wn(g, t, n)); }
}
pub proof fn lem_rotr(h: H, t: int, e: (int, int), b: int)
    requires ws(put(h, e, b), t), eo(put(h, e, b), t, e, b), red(h, h.le@[b])
    ensures ws(put(rotr(h, b), e, h.le@[b]), t), eo(put(rotr(h, b), e, h.le@[b]), t, e, h.le@[b])
{
    let g = put(h, e, b); let a = h.le@[b]; let x = h.ri@[a]; let f = put(rotr(h, b), e, a);
    assert(wn(g, t, b)); assert(wn(g, t, a)); if x != 0 { assert(wn(g, t, x)); }
    if e.0 != t { assert(wn(g, t, e.0)); }
    assert forall|n: int| own(f, n) == t implies #[trigger] wn(f, t, n) && bn(f, n) by { assert(wn(g, t, n)); }
}
pub proof fn lem_flip(h: H, t: int, e: (int, int), n: int)
    requires ws(put(h, e, n), t), eo(put(h, e, n), t, e, n), h.le@[n] != 0, h.ri@[n] != 0, h.co@[h.le@[n]] == h.co@[h.ri@[n]], e.0 == t || h.co@[n] != h.co@[h.le@[n]]
    ensures ws(put(flip(h, n), e, n), t), eo(put(flip(h, n), e, n), t, e, n)
{
    let g = put(h, e, n); let l = h.le@[n]; let r = h.ri@[n]; let f = put(flip(h, n), e, n);
    assert(wn(g, t, n)); assert(wn(g, t, l)); assert(wn(g, t, r));
    if e.0 != t { assert(wn(g, t, e.0)); }
    assert forall|m: int| own(f, m) == t implies #[trigger] wn(f, t, m) && bn(f, m) by { assert(wn(g, t, m)); }
}
// only links, colours and the shape of tree t changed
pub open spec fn n1(a: H, b: H, m: int) -> bool {
    b.le@[m] == a.le@[m] && b.ri@[m] == a.ri@[m] && b.pa@[m] == a.pa@[m] && b.co@[m] == a.co@[m] && lo(b, m) == lo(a, m) && hi(b, m) == hi(a, m) && (b.bh@)(m) == (a.bh@)(m)
}
pub open spec fn frs(a: H, b: H, t: int) -> bool {
    &&& b.e == a.e && b.st == a.st && b.ns == a.ns && b.own == a.own && b.idx == a.idx
    &&& b.le@[t] == a.le@[t] && b.ri@[t] == a.ri@[t] && b.co@[t] == a.co@[t]
    &&& forall|m: int| own(a, m) != t && m != t ==> #[trigger] n1(a, b, m)
}
pub proof fn lem_frs(a: H, b: H, c: H, t: int)
    requires frs(a, b, t), frs(b, c, t)
    ensures frs(a, c, t)
{ assert forall|m: int| own(a, m) != t && m != t implies #[trigger] n1(a, c, m) by { assert(n1(a, b, m)); assert(n1(b, c, m)); } }
pub open spec fn tch(h: H, n: int, m: int) -> bool { m == n || m == h.le@[n] || m == h.ri@[n] || h.le@[n] != 0 && m == h.le@[h.le@[n]] }
// node n may be given to fixup
pub open spec fn fxok(h: H, t: int, e: (int, int), n: int) -> bool {
    let l = h.le@[n]; let r = h.ri@[n];
    &&& r != 0 ==> cs(h, r)
    &&& l != 0 ==> !red(h, h.ri@[l]) && (red(h, l) && red(h, h.le@[l]) ==> !red(h, n) && !red(h, r))
    &&& e.0 == t || !(red(h, n) && red(h, l) && red(h, r))
}
// what fixup of n leaves: z in its place
pub open spec fn fxd(h: H, f: H, t: int, e: (int, int), n: int, z: int) -> bool {
    let l = h.le@[n]; let r = h.ri@[n];
    &&& ws(f, t) && eo(f, t, e, z) && get(f, e) == z && frs(h, f, t) && lo(f, z) == lo(h, n) && hi(f, z) == hi(h, n)
    &&& f.pa@[t] == (if e.0 == t { z } else { h.pa@[t] })
    &&& forall|m: int| #![trigger kept(h, f, m)] own(h, m) == t && !tch(h, n, m) && m != e.0 ==> kept(h, f, m)
    &&& forall|m: int| #![trigger f.pa@[m]] own(h, m) == t && !tch(h, n, m) && !tch(h, n, h.pa@[m]) ==> f.pa@[m] == h.pa@[m]
    &&& f.co@[e.0] == h.co@[e.0] && bh(f, e.0) == bh(h, e.0)
    &&& e.1 != 1 ==> f.le@[e.0] == h.le@[e.0]
    &&& e.1 != 2 ==> f.ri@[e.0] == h.ri@[e.0]
    &&& forall|m: int| #![trigger cs(f, m)] own(h, m) == t && m != z && m != e.0 && (m == n || m == l || cs(h, m)) ==> cs(f, m)
    &&& !red(f, f.ri@[z])
    &&& red(f, z) && red(f, f.le@[z]) ==> red(h, n) && red(h, l) != red(h, r)
    &&& red(f, z) ==> red(h, n) || red(h, l) && red(h, r) || red(h, l) && red(h, h.le@[l])
    &&& !(red(h, n) && red(h, l) && red(h, r)) ==> bh(f, z) == bh(h, n)
    &&& tch(h, n, z)
}
pub proof fn lem_put(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n
    ensures ws(put(h, e, n), t), eo(put(h, e, n), t, e, n)
{
    let g = put(h, e, n);
    lem_edge(h, t, e);
    assert forall|m: int| #![trigger h.pa@[m]] #![trigger g.pa@[m]] g.pa@[m] == h.pa@[m] by { }
    assert forall|m: int| #![trigger h.le@[m]] #![trigger g.le@[m]] g.le@[m] == h.le@[m] by { }
    assert forall|m: int| #![trigger h.ri@[m]] #![trigger g.ri@[m]] g.ri@[m] == h.ri@[m] by { }
    assert(wh(g, t));
    assert forall|m: int| own(g, m) == t implies #[trigger] wn(g, t, m) && bn(g, m) by { assert(wn(h, t, m)); assert(bn(h, m)); }
}
pub proof fn lem_fix(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, fxok(h, t, e, n)
    ensures fxd(h, put(fx(h, n).0, e, fx(h, n).1), t, e, n, fx(h, n).1), okfx(h, n), al(fx(h, n).0, e.0), 0 <= e.1 <= 2
{
    lem_put(h, t, e, n);
    let l = h.le@[n]; let r = h.ri@[n];
    assert(wn(h, t, n)); if l != 0 { assert(wn(h, t, l)); if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } if h.ri@[l] != 0 { assert(wn(h, t, h.ri@[l])); } }
    if r != 0 { assert(wn(h, t, r)); if h.le@[r] != 0 { assert(wn(h, t, h.le@[r])); } if h.ri@[r] != 0 { assert(wn(h, t, h.ri@[r])); } }
    assert(okfx(h, n));
    if e.0 != t { assert(wn(h, t, e.0)); }
    let a = fx1(h, n);
    if red(h, r) && !red(h, l) { lem_rotl(h, t, e, n); }
    let b = fx2(a.0, a.1);
    if red(a.0, a.0.le@[a.1]) && red(a.0, a.0.le@[a.0.le@[a.1]]) { lem_rotr(a.0, t, e, a.1); }
    let c = fx3(b.0, b.1);
    let g = put(b.0, e, b.1);
    assert(wn(g, t, b.1));
    if red(b.0, b.0.le@[b.1]) && red(b.0, b.0.ri@[b.1]) { lem_flip(b.0, t, e, b.1); }
    let f = put(c.0, e, c.1);
    assert forall|m: int| #![trigger kept(h, f, m)] own(h, m) == t && !tch(h, n, m) && m != e.0 implies kept(h, f, m) by { assert(wn(h, t, m)); }
    assert forall|m: int| #![trigger f.pa@[m]] own(h, m) == t && !tch(h, n, m) && !tch(h, n, h.pa@[m]) implies f.pa@[m] == h.pa@[m] by { assert(wn(h, t, m)); }
    assert forall|m: int| #![trigger cs(f, m)] own(h, m) == t && m != c.1 && m != e.0 && (m == n || m == l || cs(h, m)) implies cs(f, m) by { assert(wn(h, t, m)); }
}
// ---- insertion of a red leaf x
pub open spec fn ini(h: H, x: int) -> H { H { co: Ghost(h.co@.insert(x, true)), le: Ghost(h.le@.insert(x, 0)), ri: Ghost(h.ri@.insert(x, 0)), ..h } }
// colours while the change moves up: y below p may be wrong
pub open spec fn wi(h: H, t: int, p: int, y: int) -> bool {
    &&& y != 0 && own(h, y) == t && h.pa@[y] == p && (p == t || own(h, p) == t)
    &&& forall|m: int| own(h, m) == t && m != p && m != y ==> #[trigger] cs(h, m)
    &&& !red(h, h.ri@[y])
    &&& red(h, y) && red(h, h.le@[y]) ==> p != t && !red(h, p) && y == h.le@[p]
    &&& p != t ==> !red(h, h.pa@[t]) && (y == h.le@[p] ==> !red(h, h.ri@[p])) && (y == h.ri@[p] ==> !(red(h, p) && red(h, h.le@[p])))
}
pub proof fn lem_wi_pre(h: H, t: int, e: (int, int), p: int, y: int)
    requires ws(h, t), wi(h, t, p, y), p != t, eo(h, t, e, p), get(h, e) == p
    ensures fxok(h, t, e, p)
{
    assert(wn(h, t, p)); assert(wn(h, t, y));
    if h.le@[p] != 0 { assert(wn(h, t, h.le@[p])); if h.le@[p] != y { assert(cs(h, h.le@[p])); } }
    if h.ri@[p] != 0 { assert(wn(h, t, h.ri@[p])); if h.ri@[p] != y { assert(cs(h, h.ri@[p])); } }
}
pub proof fn lem_wi(h: H, f: H, t: int, e: (int, int), p: int, y: int, z: int)
    requires ws(h, t), wi(h, t, p, y), p != t, eo(h, t, e, p), get(h, e) == p, fxd(h, f, t, e, p, z)
    ensures wi(f, t, e.0, z), hi(f, z) - lo(f, z) > hi(h, y) - lo(h, y)
{
    let q = e.0;
    assert(wn(h, t, p)); assert(wn(h, t, y)); assert(wn(f, t, z));
    if h.le@[p] != 0 { assert(wn(h, t, h.le@[p])); if h.le@[h.le@[p]] != 0 { assert(wn(h, t, h.le@[h.le@[p]])); } } if h.ri@[p] != 0 { assert(wn(h, t, h.ri@[p])); }
    if q != t { assert(wn(h, t, q)); assert(wn(f, t, q)); assert(cs(h, q));
        let o = if e.1 == 1 { h.ri@[q] } else { h.le@[q] };
        if o != 0 { assert(wn(h, t, o)); assert(kept(h, f, o)); }
        let r = h.pa@[t]; assert(r != p); assert(wn(h, t, r)); assert(f.pa@[t] == r);
        if r == q { } else { assert(kept(h, f, r)); }
    }
    assert forall|m: int| own(f, m) == t && m != q && m != z implies #[trigger] cs(f, m) by { assert(m == y || m == p || cs(h, m)); if m == y { if y != h.le@[p] { assert(cs(h, y)); } } }
}
pub open spec fn blacken(h: H, t: int) -> H {
    let r = h.pa@[t];
    H { co: Ghost(h.co@.insert(r, false)), bh: Ghost(|m: int| if m == r { bh(h, h.le@[r]) + 1 } else { (h.bh@)(m) }), ..h }
}
pub proof fn lem_blacken(h: H, t: int)
    requires ws(h, t), h.pa@[t] != 0,
        forall|m: int| own(h, m) == t && m != h.pa@[t] ==> #[trigger] cs(h, m), !red(h, h.ri@[h.pa@[t]])
    ensures ws(blacken(h, t), t), wc(blacken(h, t), t), frs(h, blacken(h, t), t)
{
    let f = blacken(h, t); let r = h.pa@[t];
    assert(wn(h, t, r));
    assert forall|m: int| own(f, m) == t implies #[trigger] wn(f, t, m) && bn(f, m) by { assert(wn(h, t, m)); }
    assert forall|m: int| own(f, m) == t implies #[trigger] cs(f, m) by { assert(wn(h, t, m)); if m != r { assert(cs(h, m)); } }
}
// the change has reached the top or does no harm where it is
pub proof fn lem_wi_end(h: H, t: int, p: int, y: int)
    requires ws(h, t), wi(h, t, p, y), p == t || !red(h, h.le@[p]) && !red(h, h.ri@[p])
    ensures h.pa@[t] != 0, forall|m: int| own(h, m) == t && m != h.pa@[t] ==> #[trigger] cs(h, m), !red(h, h.ri@[h.pa@[t]])
{
    assert(wn(h, t, y));
    assert forall|m: int| own(h, m) == t && m != h.pa@[t] implies #[trigger] cs(h, m) by {
        assert(wn(h, t, m));
        if m == y { assert(p != t); assert(wn(h, t, p)); }
        if m == p { }
    }
    let r = h.pa@[t];
    assert(ns(h, t)[idx(h, y)] == y);
    assert(r != 0); assert(wn(h, t, r));
    if r != y && r != p { assert(cs(h, r)); }
}
// ---- keys and their order
pub uninterp spec fn kval(a: Val) -> Val;              // the key of an entry (of a key object: itself)
pub uninterp spec fn mval(a: Val) -> Val;              // the mapped value of an entry
pub uninterp spec fn klt(a: Val, b: Val) -> bool;      // the comparison of the tree
pub uninterp spec fn keq(a: Val, b: Val) -> bool;      // operator== of keys
// the comparison is a strict weak order, and keys are equal if neither comes first
#[verifier::external_body]
pub broadcast proof fn ax_klt_irr(a: Val) ensures !#[trigger] klt(a, a) {}
#[verifier::external_body]
pub broadcast proof fn ax_klt_asym(a: Val, b: Val) ensures #[trigger] klt(a, b) ==> !klt(b, a) {}
#[verifier::external_body]
pub broadcast proof fn ax_klt_neg(a: Val, b: Val, c: Val) ensures #[trigger] klt(a, b) ==> #[trigger] klt(a, c) || klt(c, b) {}
#[verifier::external_body]
pub broadcast proof fn ax_keq(a: Val, b: Val) ensures #[trigger] keq(a, b) == (!klt(a, b) && !klt(b, a)) {}
#[verifier::external_body]
pub fn k_eq(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == keq(kval(ev(h.e@, a@)), kval(ev(h.e@, b@))) { unimplemented!() }
#[verifier::external_body]
pub fn k_lt(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == klt(kval(ev(h.e@, a@)), kval(ev(h.e@, b@))) { unimplemented!() }
pub open spec fn vals(h: H, t: int) -> Seq<Val> { Seq::new(ns(h, t).len(), |i: int| ev(h.e@, ns(h, t)[i])) }
pub open spec fn ky(h: H, t: int, i: int) -> Val { kval(ev(h.e@, ns(h, t)[i])) }
pub open spec fn len(h: H, t: int) -> int { ns(h, t).len() as int }
// keys ascend
pub open spec fn wk(h: H, t: int) -> bool { forall|i: int, j: int| 0 <= i < j < len(h, t) ==> !klt(#[trigger] ky(h, t, j), #[trigger] ky(h, t, i)) }
// keys are all different
pub open spec fn uq(h: H, t: int) -> bool { forall|i: int, j: int| 0 <= i < j < len(h, t) ==> klt(#[trigger] ky(h, t, i), #[trigger] ky(h, t, j)) }
pub open spec fn wf(h: H, t: int) -> bool { ws(h, t) && wc(h, t) && wk(h, t) }
// ---- edges
pub open spec fn eok(h: H, t: int, e: (int, int)) -> bool { t != 0 && (e == (t, 0int) || own(h, e.0) == t && (e.1 == 1 || e.1 == 2)) }
pub open spec fn ea(h: H, t: int, e: (int, int)) -> int { if e.1 == 0 { 0 } else if e.1 == 1 { lo(h, e.0) } else { idx(h, e.0) + 1 } }
pub open spec fn eb(h: H, t: int, e: (int, int)) -> int { if e.1 == 0 { len(h, t) } else if e.1 == 1 { idx(h, e.0) } else { hi(h, e.0) } }
pub proof fn lem_edge(h: H, t: int, e: (int, int))
    requires ws(h, t), eok(h, t, e)
    ensures al(h, e.0), 0 <= e.1 <= 2, 0 <= ea(h, t, e) <= eb(h, t, e) <= len(h, t), e.0 != t ==> wn(h, t, e.0),
        get(h, e) == 0 <==> ea(h, t, e) == eb(h, t, e),
        get(h, e) != 0 ==> own(h, get(h, e)) == t && lo(h, get(h, e)) == ea(h, t, e) && hi(h, get(h, e)) == eb(h, t, e) && h.pa@[get(h, e)] == e.0 && eo(h, t, e, get(h, e)) && wn(h, t, get(h, e)) && ev(h.e@, get(h, e)) == ev(h.e@, ns(h, t)[idx(h, get(h, e))])
{
    if e.0 != t { assert(wn(h, t, e.0)); }
    let y = get(h, e);
    if y != 0 { assert(own(h, y) == t); assert(wn(h, t, y)); }
}
// ---- a new leaf x with value v in the place of the null link e, at position k
pub open spec fn linked(a: H, t: int, e: (int, int), x: int, v: Val, k: int) -> H {
    let r = e.1 == 2;
    let b = H { mr: a.mr, e: Ghost(a.e@.insert(x, Slot::Live(v))), st: Ghost(a.st@.insert(x, 1)), pa: Ghost(a.pa@.insert(x, e.0)), le: Ghost(a.le@.insert(x, 0)), ri: Ghost(a.ri@.insert(x, 0)), co: Ghost(a.co@.insert(x, true)),
        ns: Ghost(|u: int| if u == t { ns(a, t).insert(k, x) } else { ns(a, u) }),
        own: Ghost(|m: int| if m == x { t } else { own(a, m) }),
        idx: Ghost(|m: int| if m == x { k } else if own(a, m) == t && idx(a, m) >= k { idx(a, m) + 1 } else { idx(a, m) }),
        lo: Ghost(|m: int| if m == x { k } else if own(a, m) == t && (lo(a, m) > k || r && lo(a, m) == k) { lo(a, m) + 1 } else { lo(a, m) }),
        hi: Ghost(|m: int| if m == x { k + 1 } else if own(a, m) == t && (hi(a, m) > k || r && hi(a, m) == k) { hi(a, m) + 1 } else { hi(a, m) }),
        bh: Ghost(|m: int| if m == x { 0 } else { (a.bh@)(m) }) };
    put(b, e, x)
}
pub proof fn lem_link(a: H, t: int, e: (int, int), x: int, v: Val, k: int)
    requires ws(a, t), wc(a, t), eok(a, t, e), get(a, e) == 0, x != 0, !al(a, x), k == ea(a, t, e)
    ensures ws(linked(a, t, e, x, v, k), t), wi(linked(a, t, e, x, v, k), t, e.0, x)
{
    let b = linked(a, t, e, x, v, k); let s = ns(a, t); let s2 = ns(b, t); let p = e.0;
    lem_edge(a, t, e);
    if own(a, x) == t { assert(wn(a, t, x)); }
    assert forall|i: int| 0 <= i < s2.len() implies own(b, #[trigger] s2[i]) == t && idx(b, s2[i]) == i by {
        if i < k { assert(s2[i] == s[i]); } else if i > k { assert(s2[i] == s[i - 1]); }
    }
    if p != t { assert(wn(a, t, p)); }
    assert forall|m: int| own(b, m) == t implies #[trigger] wn(b, t, m) && bn(b, m) by {
        if m != x { assert(wn(a, t, m)); assert(s2[idx(b, m)] == m); if idx(a, m) == k { assert(m == s[k]); } }
    }
    assert forall|m: int| own(b, m) == t && m != p && m != x implies #[trigger] cs(b, m) by { assert(cs(a, m)); assert(wn(a, t, m)); }
    if p != t { assert(cs(a, p)); let r = a.pa@[t]; assert(ns(a, t)[idx(a, p)] == p); assert(wn(a, t, r)); }
}
// ---- everything that does not belong to tree t stays as it is
pub open spec fn fn1(a: H, b: H, t: int, m: int) -> bool {
    &&& own(b, m) == own(a, m) || own(b, m) == t || own(b, m) == 0
    &&& own(a, m) != t && m != t && (al(a, m) || !(a.e@[m] is No)) ==> n1(a, b, m) && b.st@[m] == a.st@[m] && b.e@[m] == a.e@[m] && own(b, m) == own(a, m) && idx(b, m) == idx(a, m)
}
pub open spec fn fr(a: H, b: H, t: int) -> bool {
    &&& forall|u: int| u != t ==> #[trigger] ns(b, u) == ns(a, u)
    &&& forall|m: int| #[trigger] fn1(a, b, t, m)
}
pub proof fn lem_fr_trans(a: H, b: H, c: H, t: int)
    requires fr(a, b, t), fr(b, c, t), forall|m: int| #![trigger own(b, m)] own(b, m) == t && own(a, m) != t ==> !al(a, m) && a.e@[m] is No
    ensures fr(a, c, t)
{ assert forall|m: int| #[trigger] fn1(a, c, t, m) by { assert(fn1(a, b, t, m)); assert(fn1(b, c, t, m)); } 
  assert forall|u: int| u != t implies #[trigger] ns(c, u) == ns(a, u) by { assert(ns(b, u) == ns(a, u)); } }
// other trees are not affected
pub proof fn lem_fr(a: H, b: H, t: int, u: int)
    requires fr(a, b, t), wf(a, u), u != t, t != 0, own(a, t) == 0
    ensures wf(b, u), vals(b, u) == vals(a, u), ns(b, u) == ns(a, u), uq(a, u) ==> uq(b, u)
{
    assert(fn1(a, b, t, u));
    assert forall|m: int| own(b, m) == u implies own(a, m) == u && m != t && al(a, m) by { assert(fn1(a, b, t, m)); if own(a, m) == u { assert(wn(a, u, m)); } }
    assert forall|m: int| #![trigger own(a, m)] own(a, m) == u implies n1(a, b, m) && b.st@[m] == a.st@[m] && b.e@[m] == a.e@[m] && own(b, m) == u && idx(b, m) == idx(a, m) by { assert(fn1(a, b, t, m)); assert(wn(a, u, m)); }
    assert forall|m: int| own(b, m) == u implies #[trigger] wn(b, u, m) && bn(b, m) by {
        assert(wn(a, u, m)); let l = a.le@[m]; let r = a.ri@[m]; let p = a.pa@[m];
        if l != 0 { assert(own(a, l) == u); } if r != 0 { assert(own(a, r) == u); } if p != u { assert(own(a, p) == u); }
    }
    assert forall|i: int| 0 <= i < ns(b, u).len() implies own(b, #[trigger] ns(b, u)[i]) == u && idx(b, ns(b, u)[i]) == i && b.e@[ns(b, u)[i]] == a.e@[ns(b, u)[i]] by { assert(own(a, ns(a, u)[i]) == u); }
    assert(wh(b, u)) by { if a.pa@[u] != 0 { assert(own(a, a.pa@[u]) == u); } }
    assert(wc(b, u)) by {
        assert forall|m: int| own(b, m) == u implies #[trigger] cs(b, m) by { assert(cs(a, m)); assert(wn(a, u, m)); let l = a.le@[m]; let r = a.ri@[m]; if l != 0 { assert(own(a, l) == u); } if r != 0 { assert(own(a, r) == u); } }
        if a.pa@[u] != 0 { assert(own(a, a.pa@[u]) == u); }
    }
    assert forall|i: int| 0 <= i < len(a, u) implies #[trigger] ky(b, u, i) == ky(a, u, i) by { }
    assert forall|i: int, j: int| 0 <= i < j < len(b, u) implies !klt(#[trigger] ky(b, u, j), #[trigger] ky(b, u, i)) by { assert(!klt(ky(a, u, j), ky(a, u, i))); }
    if uq(a, u) { assert forall|i: int, j: int| 0 <= i < j < len(b, u) implies klt(#[trigger] ky(b, u, i), #[trigger] ky(b, u, j)) by { assert(klt(ky(a, u, i), ky(a, u, j))); } }
    assert(vals(b, u) =~= vals(a, u));
}
// t has a new entry v at position k, in node x; all other entries are where they were
pub open spec fn insd(a: H, b: H, t: int, k: int, x: int, v: Val) -> bool {
    &&& x != 0 && !al(a, x) && a.e@[x] is No && (forall|m: int| #[trigger] b.st@[m] == (if m == x { 1 } else { a.st@[m] })) && (forall|m: int| #[trigger] b.e@[m] == (if m == x { Slot::Live(v) } else { a.e@[m] }))
    &&& 0 <= k <= len(a, t) && ns(b, t) == ns(a, t).insert(k, x) && vals(b, t) == vals(a, t).insert(k, v)
    &&& fr(a, b, t)
}
pub proof fn lem_ins(a: H, b: H, t: int, e: (int, int), x: int, v: Val, k: int, f: H)
    requires wf(a, t), t != 0, eok(a, t, e), k == ea(a, t, e), x != 0, !al(a, x), a.e@[x] is No, b == linked(a, t, e, x, v, k), ws(f, t), wc(f, t), frs(b, f, t),
        forall|i: int| 0 <= i < k ==> !klt(kval(v), #[trigger] ky(a, t, i)), forall|i: int| k <= i < len(a, t) ==> klt(kval(v), #[trigger] ky(a, t, i))
    ensures wf(f, t), insd(a, f, t, k, x, v), uq(a, t) && (forall|i: int| 0 <= i < k ==> klt(#[trigger] ky(a, t, i), kval(v))) ==> uq(f, t)
{
    broadcast use ax_klt_asym;
    lem_edge(a, t, e);
    let s = ns(a, t); let s2 = ns(f, t);
    assert(ns(b, t) == s.insert(k, x));
    assert forall|i: int| 0 <= i < len(f, t) && i != k implies #[trigger] ky(f, t, i) == ky(a, t, if i < k { i } else { i - 1 }) by {
        let i0 = if i < k { i } else { i - 1 }; assert(s2[i] == s[i0]); assert(own(a, s[i0]) == t); assert(wn(a, t, s[i0]));
    }
    assert(ky(f, t, k) == kval(v));
    assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies !klt(#[trigger] ky(f, t, j), #[trigger] ky(f, t, i)) by {
        let i0 = if i < k { i } else { i - 1 }; let j0 = if j < k { j } else { j - 1 };
        if i != k { assert(ky(f, t, i) == ky(a, t, i0)); } if j != k { assert(ky(f, t, j) == ky(a, t, j0)); }
        if i != k && j != k { assert(!klt(ky(a, t, j0), ky(a, t, i0))); }
    }
    if uq(a, t) && (forall|i: int| 0 <= i < k ==> klt(#[trigger] ky(a, t, i), kval(v))) {
        assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies klt(#[trigger] ky(f, t, i), #[trigger] ky(f, t, j)) by {
            let i0 = if i < k { i } else { i - 1 }; let j0 = if j < k { j } else { j - 1 };
            if i != k { assert(ky(f, t, i) == ky(a, t, i0)); } if j != k { assert(ky(f, t, j) == ky(a, t, j0)); }
            if i != k && j != k { assert(klt(ky(a, t, i0), ky(a, t, j0))); }
        }
    }
    assert forall|i: int| 0 <= i < len(f, t) implies vals(f, t)[i] == #[trigger] vals(a, t).insert(k, v)[i] by {
        let i0 = if i < k { i } else { i - 1 }; if i != k { assert(own(a, s[i0]) == t); assert(wn(a, t, s[i0])); assert(s2[i] == s[i0]); }
    }
    assert(vals(f, t) =~= vals(a, t).insert(k, v));
    assert forall|u: int| u != t implies #[trigger] ns(f, u) == ns(a, u) by { assert(ns(b, u) == ns(a, u)); }
    assert forall|m: int| #[trigger] fn1(a, f, t, m) by { assert(own(b, m) == own(a, m) || m == x); if own(b, m) != t && m != t { assert(n1(b, f, m)); } }
}
// where a key is if it comes before, or does not come before, node n
pub proof fn lem_desc(h: H, t: int, n: int, k: Val)
    requires wf(h, t), own(h, n) == t
    ensures ky(h, t, idx(h, n)) == kval(ev(h.e@, n)), 0 <= idx(h, n) < len(h, t),
        klt(k, kval(ev(h.e@, n))) ==> forall|i: int| idx(h, n) <= i < len(h, t) ==> klt(k, #[trigger] ky(h, t, i)),
        !klt(k, kval(ev(h.e@, n))) ==> forall|i: int| 0 <= i <= idx(h, n) ==> !klt(k, #[trigger] ky(h, t, i)),
        klt(kval(ev(h.e@, n)), k) ==> forall|i: int| 0 <= i <= idx(h, n) ==> klt(#[trigger] ky(h, t, i), k),
        !klt(kval(ev(h.e@, n)), k) ==> forall|i: int| idx(h, n) <= i < len(h, t) ==> !klt(#[trigger] ky(h, t, i), k),
{
    broadcast use ax_klt_asym, ax_klt_neg;
    assert(wn(h, t, n)); let j = idx(h, n);
    assert forall|i: int| j <= i < len(h, t) && klt(k, ky(h, t, j)) implies klt(k, #[trigger] ky(h, t, i)) by { if i > j { assert(!klt(ky(h, t, i), ky(h, t, j))); } }
    assert forall|i: int| j <= i < len(h, t) && !klt(ky(h, t, j), k) implies !klt(#[trigger] ky(h, t, i), k) by { if i > j { assert(!klt(ky(h, t, i), ky(h, t, j))); } }
    assert forall|i: int| 0 <= i <= j && !klt(k, ky(h, t, j)) implies !klt(k, #[trigger] ky(h, t, i)) by { if i < j { assert(!klt(ky(h, t, j), ky(h, t, i))); } }
    assert forall|i: int| 0 <= i <= j && klt(ky(h, t, j), k) implies klt(#[trigger] ky(h, t, i), k) by { if i < j { assert(!klt(ky(h, t, j), ky(h, t, i))); } }
}
pub open spec fn hask(h: H, t: int, k: Val) -> bool { exists|i: int| 0 <= i < len(h, t) && keq(#[trigger] ky(h, t, i), k) }
// ... at the place for its key: after all smaller ones, and after all equal ones (of which there are none if keys are different)
pub open spec fn inu(a: H, b: H, t: int, k: int, x: int, v: Val) -> bool {
    &&& insd(a, b, t, k, x, v)
    &&& forall|i: int| 0 <= i < k ==> klt(#[trigger] ky(a, t, i), kval(v))
    &&& forall|i: int| k <= i < len(a, t) ==> klt(kval(v), #[trigger] ky(a, t, i))
}
pub open spec fn ine(a: H, b: H, t: int, k: int, x: int, v: Val) -> bool {
    &&& insd(a, b, t, k, x, v)
    &&& forall|i: int| 0 <= i < k ==> !klt(kval(v), #[trigger] ky(a, t, i))
    &&& forall|i: int| k <= i < len(a, t) ==> klt(kval(v), #[trigger] ky(a, t, i))
}
// ---- positions: len is the end
pub open spec fn at(h: H, t: int, i: int) -> int { if 0 <= i < len(h, t) { ns(h, t)[i] } else { t } }
pub open spec fn pos(h: H, t: int, p: int) -> int { if p == t { len(h, t) } else { idx(h, p) } }
pub open spec fn ispos(h: H, t: int, p: int) -> bool { p == t || p != 0 && own(h, p) == t }
// first position whose key is not less than k
pub open spec fn lbp(h: H, t: int, k: Val, i: int) -> bool {
    &&& 0 <= i <= len(h, t)
    &&& forall|j: int| 0 <= j < i ==> klt(#[trigger] ky(h, t, j), k)
    &&& forall|j: int| i <= j < len(h, t) ==> !klt(#[trigger] ky(h, t, j), k)
}
// first position whose key is greater than k
pub open spec fn ubp(h: H, t: int, k: Val, i: int) -> bool {
    &&& 0 <= i <= len(h, t)
    &&& forall|j: int| 0 <= j < i ==> !klt(k, #[trigger] ky(h, t, j))
    &&& forall|j: int| i <= j < len(h, t) ==> klt(k, #[trigger] ky(h, t, j))
}
pub open spec fn rng(h: H, t: int, n: int, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= len(h, t)
    &&& n == 0 ==> a == b
    &&& n != 0 ==> own(h, n) == t && wn(h, t, n) && lo(h, n) == a && hi(h, n) == b
}
pub proof fn lem_root(h: H, t: int) requires ws(h, t) ensures rng(h, t, h.pa@[t], 0, len(h, t)), al(h, t)
{ if h.pa@[t] != 0 { assert(wn(h, t, h.pa@[t])); } else { assert(len(h, t) == 0); } }
pub proof fn lem_kids(h: H, t: int, n: int) requires ws(h, t), own(h, n) == t
    ensures rng(h, t, h.le@[n], lo(h, n), idx(h, n)), rng(h, t, h.ri@[n], idx(h, n) + 1, hi(h, n)), al(h, n), wn(h, t, n), ns(h, t)[idx(h, n)] == n, n != 0
{ assert(wn(h, t, n)); if h.le@[n] != 0 { assert(wn(h, t, h.le@[n])); } if h.ri@[n] != 0 { assert(wn(h, t, h.ri@[n])); } }
// ---- release of a subtree: the nodes of t at the positions [a,b)
pub open spec fn inr(h: H, t: int, a: int, b: int, m: int) -> bool { own(h, m) == t && a <= idx(h, m) < b }
pub open spec fn wd(h: H, t: int, n: int) -> bool {
    let l = h.le@[n]; let r = h.ri@[n];
    &&& n != 0 && h.st@[n] == 1 && h.e@[n] is Live
    &&& 0 <= lo(h, n) <= idx(h, n) < hi(h, n) <= ns(h, t).len()
    &&& ns(h, t)[idx(h, n)] == n
    &&& l == 0 ==> lo(h, n) == idx(h, n)
    &&& l != 0 ==> own(h, l) == t && lo(h, l) == lo(h, n) && hi(h, l) == idx(h, n) && lo(h, l) <= idx(h, l) < hi(h, l)
    &&& r == 0 ==> hi(h, n) == idx(h, n) + 1
    &&& r != 0 ==> own(h, r) == t && lo(h, r) == idx(h, n) + 1 && hi(h, r) == hi(h, n) && lo(h, r) <= idx(h, r) < hi(h, r)
}
pub open spec fn wsub(h: H, t: int, a: int, b: int) -> bool { forall|m: int| inr(h, t, a, b, m) ==> #[trigger] wd(h, t, m) }
pub open spec fn freed(g: H, f: H, t: int, a: int, b: int) -> bool {
    &&& f == (H { e: f.e, st: f.st, ..g })
    &&& forall|m: int| #[trigger] f.e@[m] == (if inr(g, t, a, b, m) { Slot::No } else { g.e@[m] })
    &&& forall|m: int| #[trigger] f.st@[m] == (if inr(g, t, a, b, m) { 0 } else { g.st@[m] })
}
pub open spec fn ns_none(h: H, t: int) -> spec_fn(int) -> Seq<int> { |u: int| if u == t { Seq::<int>::empty() } else { ns(h, u) } }
pub open spec fn own_none(h: H, t: int) -> spec_fn(int) -> int { |m: int| if own(h, m) == t || m == t { 0 } else { own(h, m) } }
// t is empty, and all its nodes are gone
pub open spec fn cleared(g: H, f: H, t: int) -> bool {
    &&& wf(f, t) && len(f, t) == 0 && fr(g, f, t)
    &&& forall|m: int| #[trigger] own(f, m) == (if own(g, m) == t { 0 } else { own(g, m) })
    &&& forall|m: int| #[trigger] f.e@[m] == (if own(g, m) == t { Slot::No } else { g.e@[m] })
    &&& forall|m: int| #[trigger] f.st@[m] == (if own(g, m) == t { 0 } else { g.st@[m] })
}
// ---- copying: the nodes of t at the positions [lo,hi) are new copies of the ones of u
pub open spec fn cpb(a: H, b: H, t: int, u: int, i: int) -> bool {
    let x = ns(b, t)[i]; let s = ns(a, u)[i];
    &&& x != 0 && !al(a, x) && a.e@[x] is No && own(b, x) == t && idx(b, x) == i && b.st@[x] == 1 && b.e@[x] == a.e@[s] && b.co@[x] == a.co@[s]
    &&& lo(b, x) == lo(a, s) && hi(b, x) == hi(a, s) && (b.bh@)(x) == (a.bh@)(s)
}
pub open spec fn cpl(a: H, b: H, t: int, u: int, i: int) -> bool {
    let x = ns(b, t)[i]; let s = ns(a, u)[i];
    if a.le@[s] == 0 { b.le@[x] == 0 } else { b.le@[x] == ns(b, t)[idx(a, a.le@[s])] && b.pa@[b.le@[x]] == x }
}
pub open spec fn cpr(a: H, b: H, t: int, u: int, i: int) -> bool {
    let x = ns(b, t)[i]; let s = ns(a, u)[i];
    if a.ri@[s] == 0 { b.ri@[x] == 0 } else { b.ri@[x] == ns(b, t)[idx(a, a.ri@[s])] && b.pa@[b.ri@[x]] == x }
}
pub open spec fn cpn(a: H, b: H, t: int, u: int, i: int) -> bool { cpb(a, b, t, u, i) && cpl(a, b, t, u, i) && cpr(a, b, t, u, i) }
pub open spec fn cpf(a: H, b: H, t: int, p: int, q: int, m: int) -> bool {
    &&& own(b, m) == own(a, m) || own(b, m) == t && !al(a, m) && a.e@[m] is No && p <= idx(b, m) < q && ns(b, t)[idx(b, m)] == m
    &&& al(a, m) || !(a.e@[m] is No) ==> n1(a, b, m) && b.st@[m] == a.st@[m] && b.e@[m] == a.e@[m] && own(b, m) == own(a, m) && idx(b, m) == idx(a, m)
    &&& !al(a, m) && (b.st@[m] != a.st@[m] || b.e@[m] != a.e@[m]) ==> own(b, m) == t
}
pub open spec fn cpd(a: H, b: H, t: int, u: int, p: int, q: int) -> bool {
    &&& forall|i: int| p <= i < q ==> #[trigger] cpn(a, b, t, u, i)
    &&& len(b, t) == len(a, t) && forall|i: int| 0 <= i < len(a, t) && !(p <= i < q) ==> #[trigger] ns(b, t)[i] == ns(a, t)[i]
    &&& forall|w: int| w != t ==> #[trigger] ns(b, w) == ns(a, w)
    &&& forall|m: int| #[trigger] cpf(a, b, t, p, q, m)
}
// node x takes position i of t, as the copy of s
pub open spec fn cp_ns(h: H, t: int, i: int, x: int) -> spec_fn(int) -> Seq<int> { |u: int| if u == t { ns(h, t).update(i, x) } else { ns(h, u) } }
pub open spec fn up(f: spec_fn(int) -> int, x: int, v: int) -> spec_fn(int) -> int { |m: int| if m == x { v } else { f(m) } }
// ... while the copy of s is being linked: the positions [p,q) are copied, except for the links of x
pub open spec fn cpm(a: H, b: H, t: int, u: int, s: int, x: int, p: int, q: int) -> bool {
    &&& p <= idx(a, s) < q && own(a, s) == u && ns(b, t)[idx(a, s)] == x && cpb(a, b, t, u, idx(a, s))
    &&& forall|i: int| p <= i < q && i != idx(a, s) ==> #[trigger] cpn(a, b, t, u, i)
    &&& len(b, t) == len(a, t) && forall|i: int| 0 <= i < len(a, t) && !(p <= i < q) ==> #[trigger] ns(b, t)[i] == ns(a, t)[i]
    &&& forall|w: int| w != t ==> #[trigger] ns(b, w) == ns(a, w)
    &&& forall|m: int| #[trigger] cpf(a, b, t, p, q, m)
}
// the positions a node covers are divided further below it
pub proof fn lem_nest(h: H, t: int, n: int, m: int)
    requires ws(h, t), own(h, n) == t, own(h, m) == t, lo(h, n) <= idx(h, m) < hi(h, n)
    ensures lo(h, n) <= lo(h, m), hi(h, m) <= hi(h, n), m != n ==> hi(h, m) - lo(h, m) < hi(h, n) - lo(h, n)
    decreases hi(h, n) - lo(h, n)
{
    assert(wn(h, t, n)); assert(wn(h, t, m));
    if m != n { if idx(h, m) < idx(h, n) { lem_nest(h, t, h.le@[n], m); } else { lem_nest(h, t, h.ri@[n], m); } }
}
pub proof fn lem_cp_in(h: H, u: int, s: int, p: int, q: int, i: int)
    requires ws(h, u), own(h, s) == u, lo(h, s) <= p <= idx(h, s) < q <= hi(h, s), p == idx(h, s) || p == lo(h, s), q == idx(h, s) + 1 || q == hi(h, s), p <= i < q, i != idx(h, s)
    ensures ({ let m = ns(h, u)[i]; wn(h, u, m) && (h.le@[m] != 0 ==> p <= idx(h, h.le@[m]) < q && own(h, h.le@[m]) == u) && (h.ri@[m] != 0 ==> p <= idx(h, h.ri@[m]) < q && own(h, h.ri@[m]) == u) })
{
    let m = ns(h, u)[i]; assert(wn(h, u, s)); assert(own(h, m) == u); assert(wn(h, u, m));
    if i < idx(h, s) { lem_nest(h, u, h.le@[s], m); } else { lem_nest(h, u, h.ri@[s], m); }
    if h.le@[m] != 0 { assert(wn(h, u, h.le@[m])); } if h.ri@[m] != 0 { assert(wn(h, u, h.ri@[m])); }
}
pub open spec fn cpst(a: H, t: int, s: int, x: int) -> H {
    H { e: Ghost(a.e@.insert(x, a.e@[s])), st: Ghost(a.st@.insert(x, 1)), co: Ghost(a.co@.insert(x, a.co@[s])), ns: Ghost(cp_ns(a, t, idx(a, s), x)), own: Ghost(up(a.own@, x, t)), idx: Ghost(up(a.idx@, x, idx(a, s))),
            lo: Ghost(up(a.lo@, x, lo(a, s))), hi: Ghost(up(a.hi@, x, hi(a, s))), bh: Ghost(up(a.bh@, x, (a.bh@)(s))), ..a }
}
pub proof fn lem_cp_new(a: H, b: H, t: int, u: int, s: int, x: int)
    requires ws(a, u), u != t, t != 0, own(a, s) == u, len(a, t) == len(a, u), !al(a, x), a.e@[x] is No, x != 0,
        b == cpst(a, t, s, x)
    ensures cpm(a, b, t, u, s, x, idx(a, s), idx(a, s) + 1), ws(b, u)
{
    assert(wn(a, u, s));
    assert forall|m: int| #[trigger] cpf(a, b, t, idx(a, s), idx(a, s) + 1, m) by { }
    assert(ns(b, u) == ns(a, u));
    lem_cp_ws(a, b, t, u, s, x, idx(a, s), idx(a, s) + 1);
}
// the child of s on one side has been copied
pub proof fn lem_cp_join(a: H, b: H, c: H, t: int, u: int, s: int, x: int, p: int, q: int, p2: int, q2: int)
    requires ws(a, u), u != t, t != 0, cpm(a, b, t, u, s, x, p, q), cpd(b, c, t, u, p2, q2), p2 == q || q2 == p, 0 <= p <= q <= len(a, u), 0 <= p2 <= q2 <= len(a, u), len(a, t) == len(a, u),
        lo(a, s) <= p <= idx(a, s) < q <= hi(a, s), p == idx(a, s) || p == lo(a, s), q == idx(a, s) + 1 || q == hi(a, s)
    ensures cpm(a, c, t, u, s, x, if p2 == q { p } else { p2 }, if p2 == q { q2 } else { q }), n1(b, c, x), forall|m: int| al(b, m) ==> #[trigger] n1(b, c, m)
{
    assert forall|m: int| al(b, m) implies #[trigger] n1(b, c, m) by { assert(cpf(b, c, t, p2, q2, m)); }
    let pp = if p2 == q { p } else { p2 }; let qq = if p2 == q { q2 } else { q };
    assert(cpb(a, b, t, u, idx(a, s))); assert(cpf(b, c, t, p2, q2, x));
    assert forall|m: int| #![trigger own(a, m)] own(a, m) == u implies n1(a, b, m) && b.e@[m] == a.e@[m] && b.st@[m] == a.st@[m] && al(a, m) && idx(b, m) == idx(a, m) by { assert(wn(a, u, m)); assert(cpf(a, b, t, p, q, m)); }
    assert(ns(b, u) == ns(a, u));
    assert forall|i: int| pp <= i < qq implies (i != idx(a, s) ==> #[trigger] cpn(a, c, t, u, i)) && (i == idx(a, s) ==> cpb(a, c, t, u, i)) by {
        let m = ns(a, u)[i]; assert(own(a, m) == u); assert(wn(a, u, m));
        if p2 <= i < q2 {
            assert(cpn(b, c, t, u, i)); let y = ns(c, t)[i]; assert(cpf(a, b, t, p, q, y));
        } else {
            assert(i != idx(a, s) ==> cpn(a, b, t, u, i)); let y = ns(b, t)[i]; assert(cpf(b, c, t, p2, q2, y)); assert(ns(c, t)[i] == y);
            if i != idx(a, s) {
                lem_cp_in(a, u, s, p, q, i); let l = a.le@[m]; let r = a.ri@[m];
                if l != 0 { if idx(a, l) != idx(a, s) { assert(cpn(a, b, t, u, idx(a, l))); } assert(cpf(b, c, t, p2, q2, ns(b, t)[idx(a, l)])); }
                if r != 0 { if idx(a, r) != idx(a, s) { assert(cpn(a, b, t, u, idx(a, r))); } assert(cpf(b, c, t, p2, q2, ns(b, t)[idx(a, r)])); }
            }
        }
    }
    assert forall|i: int| 0 <= i < len(a, t) && !(pp <= i < qq) implies #[trigger] ns(c, t)[i] == ns(a, t)[i] by { assert(ns(c, t)[i] == ns(b, t)[i]); }
    assert forall|w: int| w != t implies #[trigger] ns(c, w) == ns(a, w) by { assert(ns(b, w) == ns(a, w)); }
    assert forall|m: int| #[trigger] cpf(a, c, t, pp, qq, m) by {
        assert(cpf(a, b, t, p, q, m)); assert(cpf(b, c, t, p2, q2, m));
        if own(b, m) != own(a, m) { let i = idx(b, m); assert(cpb(a, b, t, u, i)) by { if i != idx(a, s) { assert(cpn(a, b, t, u, i)); } } }
    }
}
// ... and is linked: only links of x, and the parent of its new child y, change
pub proof fn lem_cp_mod(a: H, c: H, d: H, t: int, u: int, s: int, x: int, p: int, q: int, k: int)
    requires ws(a, u), u != t, t != 0, cpm(a, c, t, u, s, x, p, q), len(a, t) == len(a, u),
        lo(a, s) <= p <= idx(a, s) < q <= hi(a, s), p == idx(a, s) || p == lo(a, s), q == idx(a, s) + 1 || q == hi(a, s),
        k == 0 || (k == a.le@[s] || k == a.ri@[s]) && p <= idx(a, k) < q,
        d == (H { le: d.le, ri: d.ri, pa: d.pa, ..c }),
        forall|m: int| m != x ==> #[trigger] d.le@[m] == c.le@[m],
        forall|m: int| m != x ==> #[trigger] d.ri@[m] == c.ri@[m],
        forall|m: int| k == 0 || m != ns(c, t)[idx(a, k)] ==> #[trigger] d.pa@[m] == c.pa@[m],
    ensures cpm(a, d, t, u, s, x, p, q)
{
    assert(wn(a, u, s));
    if k != 0 { assert(wn(a, u, k)); assert(cpn(a, c, t, u, idx(a, k))); }
    assert forall|i: int| p <= i < q && i != idx(a, s) implies #[trigger] cpn(a, d, t, u, i) by {
        assert(cpn(a, c, t, u, i)); lem_cp_in(a, u, s, p, q, i); let m = ns(a, u)[i]; let l = a.le@[m]; let r = a.ri@[m];
        if l != 0 { assert(wn(a, u, l)); assert(cpb(a, c, t, u, idx(a, l))) by { if idx(a, l) != idx(a, s) { assert(cpn(a, c, t, u, idx(a, l))); } } }
        if r != 0 { assert(wn(a, u, r)); assert(cpb(a, c, t, u, idx(a, r))) by { if idx(a, r) != idx(a, s) { assert(cpn(a, c, t, u, idx(a, r))); } } }
    }
    assert forall|m: int| #[trigger] cpf(a, d, t, p, q, m) by { assert(cpf(a, c, t, p, q, m)); }
    assert forall|w: int| w != t implies #[trigger] ns(d, w) == ns(a, w) by { assert(ns(c, w) == ns(a, w)); }
    assert forall|i: int| 0 <= i < len(a, t) && !(p <= i < q) implies #[trigger] ns(d, t)[i] == ns(a, t)[i] by { assert(ns(c, t)[i] == ns(a, t)[i]); }
}
pub proof fn lem_cp_ws(a: H, b: H, t: int, u: int, s: int, x: int, p: int, q: int)
    requires ws(a, u), u != t, t != 0, cpm(a, b, t, u, s, x, p, q)
    ensures ws(b, u)
{
    assert(ns(b, u) == ns(a, u));
    assert forall|m: int| al(a, m) implies #[trigger] n1(a, b, m) && b.st@[m] == a.st@[m] && b.e@[m] == a.e@[m] && own(b, m) == own(a, m) && idx(b, m) == idx(a, m) by { assert(cpf(a, b, t, p, q, m)); }
    assert forall|m: int| #[trigger] own(b, m) == u implies own(a, m) == u by { assert(cpf(a, b, t, p, q, m)); }
    lem_ws_cp(a, b, t, u);
}
pub proof fn lem_ws_cp(a: H, b: H, t: int, u: int)
    requires ws(a, u), u != t, t != 0, ns(b, u) == ns(a, u), forall|m: int| al(a, m) ==> #[trigger] n1(a, b, m) && b.st@[m] == a.st@[m] && b.e@[m] == a.e@[m] && own(b, m) == own(a, m) && idx(b, m) == idx(a, m),
        forall|m: int| #[trigger] own(b, m) == u ==> own(a, m) == u
    ensures ws(b, u)
{
    assert forall|m: int| own(b, m) == u implies #[trigger] wn(b, u, m) && bn(b, m) by {
        assert(own(a, m) == u); assert(wn(a, u, m)); let l = a.le@[m]; let r = a.ri@[m]; let p = a.pa@[m];
        assert(n1(a, b, m)); assert(n1(a, b, u));
        if l != 0 { assert(wn(a, u, l)); assert(n1(a, b, l)); } if r != 0 { assert(wn(a, u, r)); assert(n1(a, b, r)); } if p != u { assert(wn(a, u, p)); assert(n1(a, b, p)); }
    }
    assert(al(a, u)); assert(n1(a, b, u));
    let r = a.pa@[u]; if r != 0 { assert(wn(a, u, r)); assert(n1(a, b, r)); }
    assert forall|i: int| 0 <= i < ns(b, u).len() implies own(b, #[trigger] ns(b, u)[i]) == u && idx(b, ns(b, u)[i]) == i by { let m = ns(a, u)[i]; assert(own(a, m) == u); assert(wn(a, u, m)); assert(n1(a, b, m)); }
}
// all nodes are there that were there, except for the ones of t, and the ones that t has now
pub open spec fn nolk1(a: H, b: H, t: int, m: int) -> bool {
    &&& own(b, m) != t && own(a, m) != t ==> b.st@[m] == a.st@[m] && b.e@[m] == a.e@[m]
    &&& own(b, m) != t && own(a, m) == t ==> b.st@[m] == 0 && b.e@[m] is No
}
pub open spec fn nolk(a: H, b: H, t: int) -> bool { forall|m: int| #[trigger] nolk1(a, b, t, m) }
pub open spec fn ns_len(h: H, t: int, n: int) -> spec_fn(int) -> Seq<int> { |u: int| if u == t { Seq::<int>::new(n as nat, |i: int| 0int) } else { ns(h, u) } }
// the header of a tree without nodes
pub open spec fn whd(h: H, t: int) -> bool { t != 0 && h.st@[t] == 2 && own(h, t) == 0 && h.le@[t] == 0 && h.ri@[t] == 0 && h.co@[t] && forall|m: int| #[trigger] own(h, m) != t }
pub open spec fn rooted(b: H, t: int, y: int) -> H { H { pa: Ghost(b.pa@.insert(t, y).insert(y, t)), ..b } }
pub proof fn lem_asg(a: H, b: H, t: int, u: int)
    requires wf(a, u), u != t, u != 0, whd(a, t), a.pa@[u] != 0, len(a, t) == len(a, u), cpd(a, b, t, u, 0, len(a, u))
    ensures ({ let f = rooted(b, t, ns(b, t)[idx(a, a.pa@[u])]); wf(f, t) && vals(f, t) == vals(a, u) && (uq(a, u) ==> uq(f, t)) && fr(a, f, t) && nolk(a, f, t) })
{
    let r = a.pa@[u]; let y = ns(b, t)[idx(a, r)]; let f = rooted(b, t, y); let k = len(a, u);
    lem_root(a, u); assert(wn(a, u, r)); assert(cpn(a, b, t, u, idx(a, r)));
    assert(cpf(a, b, t, 0, k, t)); assert(cpf(a, b, t, 0, k, y));
    assert forall|i: int| 0 <= i < k implies own(f, #[trigger] ns(f, t)[i]) == t && idx(f, ns(f, t)[i]) == i && ev(f.e@, ns(f, t)[i]) == ev(a.e@, ns(a, u)[i]) && f.e@[ns(f, t)[i]] == a.e@[ns(a, u)[i]] by { assert(cpn(a, b, t, u, i)); }
    assert(y != t);
    assert(wh(f, t));
    assert forall|m: int| own(f, m) == t implies #[trigger] wn(f, t, m) && bn(f, m) && csx(f, m) by {
        assert(cpf(a, b, t, 0, k, m)); let i = idx(b, m); assert(cpn(a, b, t, u, i)); let s = ns(a, u)[i]; assert(own(a, s) == u); assert(wn(a, u, s)); assert(cs(a, s));
        let l = a.le@[s]; let q = a.ri@[s]; let p = a.pa@[s];
        if l != 0 { assert(wn(a, u, l)); assert(cpn(a, b, t, u, idx(a, l))); assert(l != r); }
        if q != 0 { assert(wn(a, u, q)); assert(cpn(a, b, t, u, idx(a, q))); assert(q != r); }
        if p != u { assert(wn(a, u, p)); assert(cpn(a, b, t, u, idx(a, p))); assert(s != r); assert(m != y); } else { assert(s == r); assert(m == y); }
        assert(bn(a, s));
    }
    assert(wc(f, t)) by { assert forall|m: int| own(f, m) == t implies #[trigger] cs(f, m) by { assert(wn(f, t, m)); } }
    assert forall|i: int| 0 <= i < k implies #[trigger] ky(f, t, i) == ky(a, u, i) by { assert(ns(f, t)[i] == ns(b, t)[i]); }
    assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies !klt(#[trigger] ky(f, t, j), #[trigger] ky(f, t, i)) by { assert(!klt(ky(a, u, j), ky(a, u, i))); }
    if uq(a, u) { assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies klt(#[trigger] ky(f, t, i), #[trigger] ky(f, t, j)) by { assert(klt(ky(a, u, i), ky(a, u, j))); } }
    assert(vals(f, t) =~= vals(a, u));
    assert forall|w: int| w != t implies #[trigger] ns(f, w) == ns(a, w) by { assert(ns(b, w) == ns(a, w)); }
    assert forall|m: int| #[trigger] fn1(a, f, t, m) by { assert(cpf(a, b, t, 0, k, m)); }
    assert forall|m: int| #[trigger] nolk1(a, f, t, m) by { assert(cpf(a, b, t, 0, k, m)); }
}
pub proof fn lem_same(a: H, b: H, u: int)
    requires wf(a, u), ws(b, u), ns(b, u) == ns(a, u), b == (H { ns: b.ns, ..a })
    ensures wf(b, u), vals(b, u) == vals(a, u), uq(a, u) ==> uq(b, u)
{
    assert forall|m: int| own(b, m) == u implies #[trigger] cs(b, m) by { assert(cs(a, m)); }
    assert forall|i: int| 0 <= i < len(a, u) implies #[trigger] ky(b, u, i) == ky(a, u, i) by { }
    assert forall|i: int, j: int| 0 <= i < j < len(b, u) implies !klt(#[trigger] ky(b, u, j), #[trigger] ky(b, u, i)) by { assert(!klt(ky(a, u, j), ky(a, u, i))); }
    if uq(a, u) { assert forall|i: int, j: int| 0 <= i < j < len(b, u) implies klt(#[trigger] ky(b, u, i), #[trigger] ky(b, u, j)) by { assert(klt(ky(a, u, i), ky(a, u, j))); } }
    assert(vals(b, u) =~= vals(a, u));
}
// an object that is not there yet
pub open spec fn newt(h: H, t: int) -> bool { t != 0 && h.st@[t] == 0 && own(h, t) == 0 && forall|m: int| #[trigger] own(h, m) != t }
// t is gone, and with it all its nodes; nothing else changed
pub open spec fn gonet(a: H, b: H, t: int) -> bool {
    &&& newt(b, t) && fr(a, b, t)
    &&& forall|m: int| #[trigger] b.e@[m] == (if own(a, m) == t { Slot::No } else { a.e@[m] })
    &&& forall|m: int| #[trigger] b.st@[m] == (if own(a, m) == t || m == t { 0 } else { a.st@[m] })
}
pub proof fn lem_lbp(h: H, t: int, k: Val, i: int, j: int) requires lbp(h, t, k, i), lbp(h, t, k, j) ensures i == j
{ if i < j { assert(klt(ky(h, t, i), k)); } if j < i { assert(klt(ky(h, t, j), k)); } }
pub proof fn lem_ubp(h: H, t: int, k: Val, i: int, j: int) requires ubp(h, t, k, i), ubp(h, t, k, j) ensures i == j
{ if i < j { assert(!klt(k, ky(h, t, i))); } if j < i { assert(!klt(k, ky(h, t, j))); } }
pub proof fn lem_bounds(h: H, t: int, k: Val, i: int, j: int) requires lbp(h, t, k, i), ubp(h, t, k, j) ensures i <= j
{ broadcast use ax_klt_asym; if j < i { assert(klt(ky(h, t, j), k)); assert(klt(k, ky(h, t, j))); } }

// ---- members of entries
pub uninterp spec fn sec_of(p: int) -> int;            // address of the second member of an entry
pub fn sec(p: Ptr) -> (r: Ptr) ensures r@ == sec_of(p@) { Ptr { a: Ghost(sec_of(p@)) } }
// an entry is its key and its mapped value
#[verifier::external_body]
pub broadcast proof fn ax_pair(a: Val, b: Val) requires #[trigger] kval(a) == #[trigger] kval(b), mval(a) == mval(b) ensures a == b {}
#[verifier::external_body]
pub fn pair_ctor(h: &mut H, p: Ptr, a: Ptr, b: Ptr) requires eraw(old(h).e@, p@), el(old(h).e@, a@), el(old(h).e@, b@)
    ensures exists|v: Val| *final(h) == (H { e: Ghost(old(h).e@.insert(p@, Slot::Live(v))), ..*old(h) }) && #[trigger] kval(v) == kval(ev(old(h).e@, a@)) && mval(v) == ev(old(h).e@, b@) { unimplemented!() }
// copy of the second member of the entry at b
pub fn e_ctor_second(h: &mut H, a: Ptr, b: Ptr) requires eraw(old(h).e@, a@), el(old(h).e@, b@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::Live(mval(ev(old(h).e@, b@))))), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::Live(mval(ev(h.e@, b@))))), ..*h }; }
pub uninterp spec fn node_sz() -> int;
#[verifier::external_body]
pub fn node_size() -> (r: u64) ensures r == node_sz(), r > 0 { unimplemented!() }
// ---- maps and sets
pub open spec fn tof(h: H, n: int) -> int { if h.st@[n] == 2 { n } else { own(h, n) } }
pub open spec fn itok(h: H, n: int) -> bool { n != 0 && tof(h, n) != 0 && wf(h, tof(h, n)) }
pub open spec fn isref(h: H, t: int, r: int, k: Val) -> bool { exists|i: int| 0 <= i < len(h, t) && r == sec_of(#[trigger] ns(h, t)[i]) && keq(ky(h, t, i), k) }
// entries stay where they are
pub open spec fn keepn(a: H, b: H, t: int) -> bool { forall|m: int| #[trigger] own(a, m) == t ==> own(b, m) == t && b.e@[m] == a.e@[m] }
// the entries after insertion of v: v comes at the place for its key unless the key is there
pub open spec fn hasv(s: Seq<Val>, k: Val) -> bool { exists|i: int| 0 <= i < s.len() && keq(kval(#[trigger] s[i]), k) }
pub open spec fn lbs(s: Seq<Val>, k: Val, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> klt(kval(#[trigger] s[j]), k)
    &&& forall|j: int| i <= j < s.len() ==> !klt(kval(#[trigger] s[j]), k)
}
pub open spec fn insu(s: Seq<Val>, v: Val) -> Seq<Val> { if hasv(s, kval(v)) { s } else { s.insert(choose|i: int| lbs(s, kval(v), i), v) } }
pub open spec fn insall(s: Seq<Val>, q: Seq<Val>) -> Seq<Val> decreases q.len() { if q.len() == 0 { s } else { insu(insall(s, q.drop_last()), q.last()) } }
pub proof fn lem_hasv(h: H, t: int, k: Val) ensures hasv(vals(h, t), k) == hask(h, t, k)
{
    if hask(h, t, k) { let i = choose|i: int| 0 <= i < len(h, t) && keq(#[trigger] ky(h, t, i), k); assert(keq(kval(vals(h, t)[i]), k)); }
    if hasv(vals(h, t), k) { let i = choose|i: int| 0 <= i < vals(h, t).len() && keq(kval(#[trigger] vals(h, t)[i]), k); assert(keq(ky(h, t, i), k)); }
}
pub proof fn lem_insu(a: H, b: H, t: int, k: int, x: int, v: Val)
    requires inu(a, b, t, k, x, v), wf(b, t), wf(a, t)
    ensures vals(b, t) == insu(vals(a, t), v), !hask(a, t, kval(v)), keepn(a, b, t), nolk(a, b, t), own(b, x) == t
{
    broadcast use ax_klt_asym, ax_keq;
    let s = vals(a, t); let kk = kval(v);
    lem_hasv(a, t, kk);
    if hask(a, t, kk) { let i = choose|i: int| 0 <= i < len(a, t) && keq(#[trigger] ky(a, t, i), kk); assert(i < k ==> klt(ky(a, t, i), kk)); assert(i >= k ==> klt(kk, ky(a, t, i))); }
    assert(lbs(s, kk, k)) by {
        assert forall|j: int| 0 <= j < k implies klt(kval(#[trigger] s[j]), kk) by { assert(klt(ky(a, t, j), kk)); }
        assert forall|j: int| k <= j < s.len() implies !klt(kval(#[trigger] s[j]), kk) by { assert(klt(kk, ky(a, t, j))); }
    }
    let c = choose|i: int| lbs(s, kk, i);
    assert(c == k) by { if c < k { assert(klt(kval(s[c]), kk)); } if k < c { assert(klt(kval(s[k]), kk)); } }
    assert(ns(b, t)[k] == x); assert(own(b, ns(b, t)[k]) == t);
    assert forall|m: int| #[trigger] own(a, m) == t implies own(b, m) == t && b.e@[m] == a.e@[m] by {
        assert(wn(a, t, m)); let i = idx(a, m); let j = if i < k { i } else { i + 1 }; assert(ns(b, t)[j] == m); assert(own(b, ns(b, t)[j]) == t); assert(m != x);
    }
    assert forall|m: int| #[trigger] nolk1(a, b, t, m) by { }
}
// temporaries are there or not
pub open spec fn tmpe(a: H, b: H) -> bool { b == (H { e: b.e, ..a }) && forall|m: int| !(a.e@[m] is No) ==> #[trigger] b.e@[m] == a.e@[m] }
pub proof fn lem_e(a: H, b: H, t: int)
    requires wf(a, t), b == (H { e: b.e, ..a }), forall|m: int| own(a, m) == t ==> #[trigger] b.e@[m] == a.e@[m]
    ensures wf(b, t), uq(a, t) ==> uq(b, t), vals(b, t) == vals(a, t), forall|k: Val| #![trigger hask(a, t, k)] #![trigger hask(b, t, k)] hask(b, t, k) == hask(a, t, k)
{
    assert forall|m: int| #![trigger own(b, m)] #![trigger wn(b, t, m)] own(b, m) == t implies wn(b, t, m) && bn(b, m) by { assert(own(a, m) == t); assert(wn(a, t, m) && bn(a, m)); }
    assert forall|i: int| 0 <= i < len(b, t) implies own(b, #[trigger] ns(b, t)[i]) == t && idx(b, ns(b, t)[i]) == i by { assert(own(a, ns(a, t)[i]) == t); }
    assert forall|m: int| own(b, m) == t implies #[trigger] cs(b, m) by { assert(cs(a, m)); }
    assert forall|i: int| 0 <= i < len(a, t) implies #[trigger] ky(b, t, i) == ky(a, t, i) by { assert(own(a, ns(a, t)[i]) == t); assert(b.e@[ns(a, t)[i]] == a.e@[ns(a, t)[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < len(b, t) implies !klt(#[trigger] ky(b, t, j), #[trigger] ky(b, t, i)) by { assert(!klt(ky(a, t, j), ky(a, t, i))); }
    if uq(a, t) { assert forall|i: int, j: int| 0 <= i < j < len(b, t) implies klt(#[trigger] ky(b, t, i), #[trigger] ky(b, t, j)) by { assert(klt(ky(a, t, i), ky(a, t, j))); } }
    assert forall|i: int| 0 <= i < len(a, t) implies #[trigger] vals(b, t)[i] == vals(a, t)[i] by { assert(own(a, ns(a, t)[i]) == t); assert(b.e@[ns(a, t)[i]] == a.e@[ns(a, t)[i]]); }
    assert(wh(b, t)); assert(ws(b, t)); assert(wc(b, t)); assert(wk(b, t));
    assert(vals(b, t) =~= vals(a, t));
    assert forall|k: Val| #![trigger hask(a, t, k)] #![trigger hask(b, t, k)] hask(b, t, k) == hask(a, t, k) by { lem_hasv(a, t, k); lem_hasv(b, t, k); }
}
pub proof fn lem_tmp(a: H, b: H, t: int)
    requires wf(a, t), tmpe(a, b)
    ensures wf(b, t), uq(a, t) ==> uq(b, t), vals(b, t) == vals(a, t), forall|k: Val| #![trigger hask(a, t, k)] #![trigger hask(b, t, k)] hask(b, t, k) == hask(a, t, k)
{ assert forall|m: int| own(a, m) == t implies #[trigger] b.e@[m] == a.e@[m] by { assert(wn(a, t, m)); } lem_e(a, b, t); }
pub proof fn lem_unt(a: H, b: H, c: H, d: H, t: int, k: int, x: int, v: Val)
    requires wf(a, t), uq(a, t), tmpe(a, b), wf(c, t), uq(c, t), inu(b, c, t, k, x, v), d == (H { e: d.e, ..c }), forall|m: int| #[trigger] d.e@[m] == (if m == x { Slot::Live(v) } else { a.e@[m] })
    ensures wf(d, t), uq(d, t), inu(a, d, t, k, x, v)
{
    lem_tmp(a, b, t);
    assert forall|m: int| own(c, m) == t implies #[trigger] d.e@[m] == c.e@[m] by { assert(wn(c, t, m)); assert(fn1(b, c, t, m)); if m != x { lem_kn(b, c, t, k, x, v, m); assert(wn(a, t, m)); } }
    lem_e(c, d, t);
    assert forall|m: int| #[trigger] fn1(a, d, t, m) by { assert(fn1(b, c, t, m)); }
    assert forall|u: int| u != t implies #[trigger] ns(d, u) == ns(a, u) by { assert(ns(c, u) == ns(b, u)); }
    assert forall|m: int| #[trigger] d.st@[m] == (if m == x { 1 } else { a.st@[m] }) by { assert(c.st@[m] == (if m == x { 1 } else { b.st@[m] })); }
    assert(x != 0 && !al(a, x)); assert(b.e@[x] is No); assert(a.e@[x] is No);
    assert forall|i: int| 0 <= i < len(a, t) implies #[trigger] ky(b, t, i) == ky(a, t, i) by { assert(own(a, ns(a, t)[i]) == t); assert(wn(a, t, ns(a, t)[i])); }
    assert forall|i: int| 0 <= i < k implies klt(#[trigger] ky(a, t, i), kval(v)) by { assert(klt(ky(b, t, i), kval(v))); }
    assert forall|i: int| k <= i < len(a, t) implies klt(kval(v), #[trigger] ky(a, t, i)) by { assert(klt(kval(v), ky(b, t, i))); }
}
pub proof fn lem_kn(a: H, b: H, t: int, k: int, x: int, v: Val, m: int)
    requires wf(a, t), insd(a, b, t, k, x, v), wf(b, t), own(b, m) == t, m != x
    ensures own(a, m) == t
{ assert(wn(b, t, m)); let i = idx(b, m); assert(ns(b, t)[i] == m); let j = if i < k { i } else { i - 1 }; assert(ns(a, t)[j] == m); assert(own(a, ns(a, t)[j]) == t); }
// what operator[] comes to when the key is not there: a new entry with the key and a default value
pub open spec fn idxd(a: H, b: H, t: int, kk: Val, r: int, k: int, x: int, v: Val) -> bool { inu(a, b, t, k, x, v) && kval(v) == kk && mval(v) == vdef() && r == sec_of(x) }

// entries were added to t, nothing else happened
pub open spec fn gr1(a: H, b: H, t: int, m: int) -> bool {
    &&& own(a, m) == t ==> own(b, m) == t
    &&& own(b, m) == t && own(a, m) != t ==> !al(a, m) && a.e@[m] is No
    &&& !(a.e@[m] is No) || own(b, m) != t ==> b.e@[m] == a.e@[m]
    &&& own(a, m) == t || own(b, m) != t ==> b.st@[m] == a.st@[m]
}
pub open spec fn grown(a: H, b: H, t: int) -> bool { fr(a, b, t) && forall|m: int| #[trigger] gr1(a, b, t, m) }
pub proof fn lem_gr_trans(a: H, b: H, c: H, t: int)
    requires grown(a, b, t), grown(b, c, t)
    ensures grown(a, c, t)
{
    assert forall|m: int| #[trigger] gr1(a, c, t, m) by { assert(gr1(a, b, t, m)); assert(gr1(b, c, t, m)); assert(fn1(a, b, t, m)); assert(fn1(b, c, t, m)); }
    assert forall|m: int| #![trigger own(b, m)] own(b, m) == t && own(a, m) != t implies !al(a, m) && a.e@[m] is No by { assert(gr1(a, b, t, m)); }
    lem_fr_trans(a, b, c, t);
}
pub proof fn lem_gr0(a: H, b: H, t: int)
    requires wf(a, t), uq(a, t), b == (H { e: b.e, ..a }), forall|m: int| #[trigger] b.e@[m] == a.e@[m]
    ensures wf(b, t), uq(b, t), vals(b, t) == vals(a, t), grown(a, b, t)
{ lem_e(a, b, t); assert forall|m: int| #[trigger] fn1(a, b, t, m) by { } assert forall|m: int| #[trigger] gr1(a, b, t, m) by { } }
pub proof fn lem_gr1(a: H, b: H, t: int, k: int, x: int, v: Val)
    requires inu(a, b, t, k, x, v), wf(b, t), wf(a, t), uq(a, t)
    ensures grown(a, b, t), vals(b, t) == insu(vals(a, t), v)
{
    lem_insu(a, b, t, k, x, v);
    assert forall|m: int| #[trigger] gr1(a, b, t, m) by { if own(b, m) == t && own(a, m) != t && m != x { lem_kn(a, b, t, k, x, v, m); } if own(a, m) == t { assert(wn(a, t, m)); } }
}
// comparison of the second members of two entries, of entries, of maps, of sets
#[verifier::external_body]
pub fn sec_eq(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == veq(mval(ev(h.e@, a@)), mval(ev(h.e@, b@))) { unimplemented!() }
pub open spec fn m_same1(a: Val, b: Val) -> bool { keq(kval(a), kval(b)) && veq(mval(a), mval(b)) }
pub open spec fn s_same1(a: Val, b: Val) -> bool { keq(kval(a), kval(b)) }
pub open spec fn m_same(a: Seq<Val>, b: Seq<Val>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> m_same1(#[trigger] a[i], b[i]) }
pub open spec fn s_same(a: Seq<Val>, b: Seq<Val>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> s_same1(#[trigger] a[i], b[i]) }
// the values from p to q
pub open spec fn src(h: H, p: int, q: int) -> Seq<Val> { Seq::new((q - p) as nat, |i: int| ev(h.e@, p + i)) }
pub proof fn lem_fr_trans2(a: H, b: H, c: H, t: int)
    requires newt(a, t), fr(a, b, t), b.own == a.own, b.e == a.e, b.st@ == a.st@.insert(t, 2), grown(b, c, t)
    ensures fr(a, c, t)
{
    assert forall|m: int| #![trigger own(b, m)] own(b, m) == t && own(a, m) != t implies !al(a, m) && a.e@[m] is No by { assert(own(a, m) != t); }
    lem_fr_trans(a, b, c, t);
}
// the values from one position to another
pub open spec fn part(h: H, p: int, q: int) -> Seq<Val> { let t = tof(h, q); vals(h, t).subrange(pos(h, t, p), pos(h, t, q)) }
pub proof fn lem_before(h: H, t: int, p: int, q: int)
    requires wf(h, t), ispos(h, t, p), ispos(h, t, q), pos(h, t, p) <= pos(h, t, q), p != q
    ensures p != t, p != 0, own(h, p) == t, wn(h, t, p), pos(h, t, p) < pos(h, t, q) <= len(h, t), vals(h, t)[pos(h, t, p)] == ev(h.e@, p), el(h.e@, p), ispos(h, t, at(h, t, pos(h, t, p) + 1)), pos(h, t, at(h, t, pos(h, t, p) + 1)) == pos(h, t, p) + 1
{
    if p != t { assert(wn(h, t, p)); } if q != t { assert(wn(h, t, q)); }
    assert(wh(h, t));
    let i = pos(h, t, p) + 1;
    if i < len(h, t) { let m = ns(h, t)[i]; assert(own(h, m) == t); assert(wn(h, t, m)); }
}
pub proof fn lem_posb(h: H, t: int, p: int)
    requires wf(h, t), ispos(h, t, p)
    ensures 0 <= pos(h, t, p) <= len(h, t)
{ if p != t { assert(wn(h, t, p)); } }
pub proof fn lem_at0(h: H, t: int)
    requires wf(h, t)
    ensures ispos(h, t, at(h, t, 0)), pos(h, t, at(h, t, 0)) == 0, tof(h, t) == t, t != 0, part(h, at(h, t, 0), t) == vals(h, t)
{ if len(h, t) > 0 { let m = ns(h, t)[0]; assert(own(h, m) == t); assert(wn(h, t, m)); } assert(part(h, at(h, t, 0), t) =~= vals(h, t)); }
