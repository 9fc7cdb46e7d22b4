// ---- heap of the list family: links, the values in the nodes, which addresses are allocated nodes and which are the
// heads of live lists; ghost: the sequence of nodes of every list, the list a node belongs to and its position there
pub struct H {
    pub e: Ghost<IMap<int, Slot>>,
    pub next: Ghost<IMap<int, int>>, pub prev: Ghost<IMap<int, int>>,
    pub nd: Ghost<IMap<int, bool>>,
    pub hd: Ghost<IMap<int, bool>>,
    pub seq: Ghost<IMap<int, Seq<int>>>,
    pub own: Ghost<spec_fn(int) -> int>, pub idx: Ghost<spec_fn(int) -> int>,
}
pub open spec fn MAXN() -> int { 0x7fff_ffff_ffff_ffff }
pub open spec fn linkok(h: H, p: int) -> bool { h.nd@[p] || h.hd@[p] }
pub fn ld_next(h: &H, p: Ptr) -> (r: Ptr) requires linkok(*h, p@) ensures r@ == h.next@[p@] { Ptr { a: Ghost(h.next@[p@]) } }
pub fn ld_prev(h: &H, p: Ptr) -> (r: Ptr) requires linkok(*h, p@) ensures r@ == h.prev@[p@] { Ptr { a: Ghost(h.prev@[p@]) } }
pub fn st_next(h: &mut H, p: Ptr, v: Ptr) requires linkok(*old(h), p@) ensures *final(h) == (H { next: Ghost(old(h).next@.insert(p@, v@)), ..*old(h) }) { *h = H { next: Ghost(h.next@.insert(p@, v@)), ..*h }; }
pub fn st_prev(h: &mut H, p: Ptr, v: Ptr) requires linkok(*old(h), p@) ensures *final(h) == (H { prev: Ghost(old(h).prev@.insert(p@, v@)), ..*old(h) }) { *h = H { prev: Ghost(h.prev@.insert(p@, v@)), ..*h }; }
// new node: fresh storage
#[verifier::external_body]
pub fn node_new(h: &mut H) -> (r: Ptr)
    ensures r@ != 0, !old(h).nd@[r@], !old(h).hd@[r@], old(h).e@[r@] is No,
        *final(h) == (H { e: Ghost(old(h).e@.insert(r@, Slot::Raw)), nd: Ghost(old(h).nd@.insert(r@, true)), ..*old(h) }) { unimplemented!() }
// delete node: its value has been destroyed
pub fn node_del(h: &mut H, a: Ptr) requires old(h).nd@[a@], old(h).e@[a@] is Raw
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::No)), nd: Ghost(old(h).nd@.insert(a@, false)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::No)), nd: Ghost(h.nd@.insert(a@, false)), ..*h }; }

// ---- representation invariant. x: a list whose links back are not described; z: an allocated node outside of all lists
pub open spec fn at(h: H, l: int, i: int) -> int { if 0 <= i < h.seq@[l].len() { h.seq@[l][i] } else { l } }
pub open spec fn wfx(h: H, x: int, z: int) -> bool {
    &&& forall|n: int| #[trigger] (h.own@)(n) != 0 ==> h.nd@[n] && h.hd@[(h.own@)(n)] && 0 <= (h.idx@)(n) < h.seq@[(h.own@)(n)].len() && h.seq@[(h.own@)(n)][(h.idx@)(n)] == n
    &&& forall|l: int, i: int| h.hd@[l] && 0 <= i < h.seq@[l].len() ==> (h.own@)(#[trigger] h.seq@[l][i]) == l && (h.idx@)(h.seq@[l][i]) == i
    &&& forall|n: int| #[trigger] h.nd@[n] && n != z ==> (h.own@)(n) != 0
    &&& forall|l: int| #[trigger] h.hd@[l] ==> l != 0 && !h.nd@[l] && (h.own@)(l) == 0
    &&& z != 0 ==> h.nd@[z] && (h.own@)(z) == 0
    &&& forall|n: int| (h.own@)(n) != 0 ==> #[trigger] h.e@[n] is Live
    &&& forall|n: int| (h.own@)(n) != 0 ==> #[trigger] h.next@[n] == at(h, (h.own@)(n), (h.idx@)(n) + 1)
    &&& forall|n: int| (h.own@)(n) != 0 && (h.own@)(n) != x ==> #[trigger] h.prev@[n] == at(h, (h.own@)(n), (h.idx@)(n) - 1)
    &&& forall|l: int| h.hd@[l] ==> #[trigger] h.next@[l] == at(h, l, 0)
    &&& forall|l: int| h.hd@[l] && l != x ==> #[trigger] h.prev@[l] == at(h, l, h.seq@[l].len() - 1)
    &&& !h.hd@[0] && !h.nd@[0]
}
pub open spec fn wf(h: H) -> bool { wfx(h, 0, 0) }
// positions: a node, or the head of a list as the position behind its last node
pub open spec fn lof(h: H, p: int) -> int { if h.hd@[p] { p } else { (h.own@)(p) } }
pub open spec fn pix(h: H, p: int) -> int { if h.hd@[p] { h.seq@[p].len() as int } else { (h.idx@)(p) } }
pub open spec fn ispos(h: H, p: int) -> bool { h.hd@[p] || (h.own@)(p) != 0 }
// the values of a list
pub open spec fn vals(h: H, l: int) -> Seq<Val> { Seq::new(h.seq@[l].len(), |i: int| ev(h.e@, h.seq@[l][i])) }
// ---- ghost state after an insertion, a removal
pub open spec fn ins_own(h: H, l: int, n: int) -> spec_fn(int) -> int { |q: int| if q == n { l } else { (h.own@)(q) } }
pub open spec fn ins_idx(h: H, l: int, k: int, n: int) -> spec_fn(int) -> int { |q: int| if q == n { k } else if (h.own@)(q) == l && (h.idx@)(q) >= k { (h.idx@)(q) + 1 } else { (h.idx@)(q) } }
pub open spec fn ins_seq(h: H, l: int, k: int, n: int) -> IMap<int, Seq<int>> { h.seq@.insert(l, h.seq@[l].insert(k, n)) }
pub open spec fn del_idx(h: H, l: int, k: int) -> spec_fn(int) -> int { |q: int| if (h.own@)(q) == l && (h.idx@)(q) > k { (h.idx@)(q) - 1 } else { (h.idx@)(q) } }
pub open spec fn del_seq(h: H, l: int, k: int) -> IMap<int, Seq<int>> { h.seq@.insert(l, h.seq@[l].remove(k)) }
pub open spec fn insd(a: H, b: H, l: int, k: int, n: int) -> bool {
    b == (H { next: b.next, prev: b.prev, seq: Ghost(ins_seq(a, l, k, n)), own: Ghost(ins_own(a, l, n)), idx: Ghost(ins_idx(a, l, k, n)), ..a })
}
pub open spec fn del_own(h: H, n: int) -> spec_fn(int) -> int { |q: int| if q == n { 0 } else { (h.own@)(q) } }
pub open spec fn deld(a: H, b: H, n: int) -> bool {
    b == (H { next: b.next, prev: b.prev, seq: Ghost(del_seq(a, (a.own@)(n), (a.idx@)(n))), own: Ghost(del_own(a, n)), idx: Ghost(del_idx(a, (a.own@)(n), (a.idx@)(n))), ..a })
}
pub proof fn seq_ins(s: Seq<int>, k: int, n: int) requires 0 <= k <= s.len()
    ensures s.insert(k, n).len() == s.len() + 1, forall|i: int| 0 <= i <= s.len() ==> #[trigger] s.insert(k, n)[i] == (if i < k { s[i] } else if i == k { n } else { s[i - 1] }) {}
pub proof fn seq_del(s: Seq<int>, k: int) requires 0 <= k < s.len()
    ensures s.remove(k).len() == s.len() - 1, forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.remove(k)[i] == (if i < k { s[i] } else { s[i + 1] }) {}
pub open spec fn rev_idx(h: H, l: int) -> spec_fn(int) -> int { |q: int| if (h.own@)(q) == l && l != 0 { h.seq@[l].len() - 1 - (h.idx@)(q) } else { (h.idx@)(q) } }
pub open spec fn revd(a: H, b: H, l: int) -> bool {
    b == (H { next: b.next, prev: b.prev, seq: Ghost(a.seq@.insert(l, a.seq@[l].reverse())), idx: Ghost(rev_idx(a, l)), ..a })
}
// the nodes of lists x and y are exchanged
pub open spec fn swp(q: int, x: int, y: int) -> int { if q == x { y } else if q == y { x } else { q } }
pub open spec fn swp_own(h: H, x: int, y: int) -> spec_fn(int) -> int { |q: int| swp((h.own@)(q), x, y) }
pub open spec fn swpd(a: H, b: H, x: int, y: int) -> bool {
    b == (H { next: b.next, prev: b.prev, seq: Ghost(a.seq@.insert(x, a.seq@[y]).insert(y, a.seq@[x])), own: Ghost(swp_own(a, x, y)), ..a })
}
// nodes [i,j) of list m are moved to position k of list l
pub open spec fn mv_seq(h: H, l: int, k: int, m: int, i: int, j: int) -> IMap<int, Seq<int>> {
    let s = h.seq@[l]; let t = h.seq@[m]; let d = j - i;
    if l != m {
        h.seq@.insert(m, Seq::new((t.len() - d) as nat, |x: int| if x < i { t[x] } else { t[x + d] }))
              .insert(l, Seq::new((s.len() + d) as nat, |x: int| if x < k { s[x] } else if x < k + d { t[i + x - k] } else { s[x - d] }))
    }
    else if k >= j { h.seq@.insert(l, Seq::new(s.len(), |x: int| if x < i || x >= k { s[x] } else if x < k - d { s[x + d] } else { s[x - (k - j)] })) }
    else { h.seq@.insert(l, Seq::new(s.len(), |x: int| if x < k || x >= j { s[x] } else if x < k + d { s[x + (i - k)] } else { s[x - d] })) }
}
pub open spec fn inr(h: H, q: int, m: int, i: int, j: int) -> bool { (h.own@)(q) == m && m != 0 && i <= (h.idx@)(q) < j }
pub open spec fn mv_own(h: H, l: int, m: int, i: int, j: int) -> spec_fn(int) -> int { |q: int| if inr(h, q, m, i, j) { l } else { (h.own@)(q) } }
pub open spec fn mv_idx(h: H, l: int, k: int, m: int, i: int, j: int) -> spec_fn(int) -> int {
    |q: int| {
        let o = (h.own@)(q); let x = (h.idx@)(q);
        if o == 0 { x }
        else if l != m { if inr(h, q, m, i, j) { x - i + k } else if o == l && x >= k { x + (j - i) } else if o == m && x >= j { x - (j - i) } else { x } }
        else if k >= j { if inr(h, q, m, i, j) { x + (k - j) } else if inr(h, q, m, j, k) { x - (j - i) } else { x } }
        else { if inr(h, q, m, i, j) { x - (i - k) } else if inr(h, q, m, k, i) { x + (j - i) } else { x } }
    }
}
pub open spec fn mvd(a: H, b: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    b == (H { next: b.next, prev: b.prev, seq: Ghost(mv_seq(a, l, k, m, i, j)), own: Ghost(mv_own(a, l, m, i, j)), idx: Ghost(mv_idx(a, l, k, m, i, j)), ..a })
}
// the links after nodes [i,j) of list m have been moved to position k of list l
pub open spec fn mv_pre(h: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    &&& wf(h) && h.hd@[l] && h.hd@[m] && 0 <= k <= h.seq@[l].len() && 0 <= i < j <= h.seq@[m].len() && (l == m ==> k < i || k > j)
}
pub open spec fn spl(a: H, b: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    &&& mvd(a, b, l, k, m, i, j)
    &&& forall|q: int| #[trigger] b.next@[q] == (if q == at(a, m, j - 1) { at(a, l, k) } else if q == at(a, m, i - 1) { at(a, m, j) } else if q == at(a, l, k - 1) { at(a, m, i) } else { a.next@[q] })
    &&& forall|q: int| #[trigger] b.prev@[q] == (if q == at(a, l, k) { at(a, m, j - 1) } else if q == at(a, m, j) { at(a, m, i - 1) } else if q == at(a, m, i) { at(a, l, k - 1) } else { a.prev@[q] })
}
pub open spec fn wf_seq(h: H) -> bool {
    &&& forall|n: int| #[trigger] (h.own@)(n) != 0 ==> h.hd@[(h.own@)(n)] && 0 <= (h.idx@)(n) < h.seq@[(h.own@)(n)].len() && h.seq@[(h.own@)(n)][(h.idx@)(n)] == n
    &&& forall|l: int, i: int| h.hd@[l] && 0 <= i < h.seq@[l].len() ==> (h.own@)(#[trigger] h.seq@[l][i]) == l && (h.idx@)(h.seq@[l][i]) == i
}
pub proof fn spl_seq(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), mvd(a, b, l, k, m, i, j) ensures wf_seq(b) {}
pub proof fn spl_next(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), spl(a, b, l, k, m, i, j), wf_seq(b)
    ensures forall|n: int| (b.own@)(n) != 0 ==> #[trigger] b.next@[n] == at(b, (b.own@)(n), (b.idx@)(n) + 1), forall|q: int| b.hd@[q] ==> #[trigger] b.next@[q] == at(b, q, 0) {}
pub proof fn spl_prev(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), spl(a, b, l, k, m, i, j), wf_seq(b)
    ensures forall|n: int| (b.own@)(n) != 0 ==> #[trigger] b.prev@[n] == at(b, (b.own@)(n), (b.idx@)(n) - 1), forall|q: int| b.hd@[q] ==> #[trigger] b.prev@[q] == at(b, q, b.seq@[q].len() - 1) {}
pub proof fn lem_spl(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), spl(a, b, l, k, m, i, j) ensures wf(b)
{ spl_seq(a, b, l, k, m, i, j); spl_next(a, b, l, k, m, i, j); spl_prev(a, b, l, k, m, i, j); }
// reverse: the nodes before p have been turned round
pub open spec fn done(h: H, l: int, p: int, q: int) -> bool { if p == l { false } else { q == l || (h.own@)(q) == l && (h.idx@)(q) < (h.idx@)(p) } }

// from a to b list l may have got new nodes and may have released nodes; everything else is as it was
pub open spec fn fr(a: H, b: H, l: int) -> bool {
    &&& b.hd@[l] && forall|q: int| q != l ==> #[trigger] b.hd@[q] == a.hd@[q]
    &&& forall|q: int| q != l ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& forall|p: int| (a.own@)(p) != l && #[trigger] (b.own@)(p) == l ==> (a.own@)(p) == 0 && a.e@[p] is No && !a.nd@[p] && p != l
    &&& forall|p: int| #[trigger] (a.own@)(p) == l && (b.own@)(p) != l ==> b.e@[p] is No && !b.nd@[p] && (b.own@)(p) == 0
    &&& forall|p: int| (a.own@)(p) != l && (b.own@)(p) != l ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|p: int| (a.own@)(p) != l && (b.own@)(p) != l ==> #[trigger] b.nd@[p] == a.nd@[p]
    &&& forall|p: int| (a.own@)(p) != l && #[trigger] (b.own@)(p) != l ==> (b.own@)(p) == (a.own@)(p)
}
pub proof fn fr_trans(a: H, b: H, c: H, l: int) requires fr(a, b, l), fr(b, c, l) ensures fr(a, c, l)
{
    assert forall|p: int| (a.own@)(p) != l && #[trigger] (c.own@)(p) == l implies (a.own@)(p) == 0 && a.e@[p] is No && !a.nd@[p] && p != l by {
        if (b.own@)(p) != l { assert(b.e@[p] == a.e@[p]); assert(b.nd@[p] == a.nd@[p]); }
    }
    assert forall|p: int| (a.own@)(p) != l && (c.own@)(p) != l implies #[trigger] c.e@[p] == a.e@[p] by { if (b.own@)(p) != l { assert(b.e@[p] == a.e@[p]); } else { assert((b.own@)(p) == l); } }
    assert forall|p: int| (a.own@)(p) != l && (c.own@)(p) != l implies #[trigger] c.nd@[p] == a.nd@[p] by { if (b.own@)(p) != l { assert(b.nd@[p] == a.nd@[p]); } else { assert((b.own@)(p) == l); } }
    assert forall|p: int| (a.own@)(p) != l && #[trigger] (c.own@)(p) != l implies (c.own@)(p) == (a.own@)(p) by { if (b.own@)(p) != l { } else { assert((b.own@)(p) == l); } }
    assert forall|p: int| #[trigger] (a.own@)(p) == l && (c.own@)(p) != l implies c.e@[p] is No && !c.nd@[p] && (c.own@)(p) == 0 by { if (b.own@)(p) != l { assert(c.e@[p] == b.e@[p]); assert(c.nd@[p] == b.nd@[p]); } else { assert((b.own@)(p) == l); } }
    assert forall|q: int| q != l implies #[trigger] c.hd@[q] == a.hd@[q] by { assert(b.hd@[q] == a.hd@[q]); }
    assert forall|q: int| q != l implies #[trigger] c.seq@[q] == a.seq@[q] by { assert(b.seq@[q] == a.seq@[q]); }
}
// the remaining nodes hold the values they held
pub open spec fn kept(a: H, b: H, l: int) -> bool { forall|i: int| 0 <= i < b.seq@[l].len() ==> b.e@[#[trigger] b.seq@[l][i]] == a.e@[b.seq@[l][i]] }
// from a to b nodes were only relinked
pub open spec fn relinked(a: H, b: H) -> bool { b == (H { next: b.next, prev: b.prev, seq: b.seq, own: b.own, idx: b.idx, ..a }) && forall|p: int| ((a.own@)(p) == 0) == (#[trigger] (b.own@)(p) == 0) }
pub open spec fn mvs(a: H, b: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    let s = a.seq@[l]; let t = a.seq@[m];
    &&& relinked(a, b)
    &&& forall|q: int| q != l && q != m ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& l != m ==> b.seq@[l] =~= s.subrange(0, k) + t.subrange(i, j) + s.subrange(k, s.len() as int) && b.seq@[m] =~= t.subrange(0, i) + t.subrange(j, t.len() as int)
    &&& l == m && k >= j ==> b.seq@[l] =~= s.subrange(0, i) + s.subrange(j, k) + s.subrange(i, j) + s.subrange(k, s.len() as int)
    &&& l == m && k < j ==> b.seq@[l] =~= s.subrange(0, k) + s.subrange(i, j) + s.subrange(k, i) + s.subrange(j, s.len() as int)
}
// m nodes, with values given by v, have been inserted at position k of list l
pub open spec fn grown(a: H, b: H, l: int, k: int, v: Seq<Val>) -> bool {
    &&& b.seq@[l].len() == a.seq@[l].len() + v.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] b.seq@[l][i] == a.seq@[l][i]
    &&& forall|i: int| k + v.len() <= i < b.seq@[l].len() ==> #[trigger] b.seq@[l][i] == a.seq@[l][i - v.len()]
    &&& vals(b, l) =~= vals(a, l).subrange(0, k) + v + vals(a, l).subrange(k, a.seq@[l].len() as int)
}
pub open spec fn rep(n: int, v: Val) -> Seq<Val> { Seq::new(n as nat, |i: int| v) }
pub proof fn grow_step(a: H, b: H, c: H, l: int, k: int, v: Seq<Val>, n: int)
    requires wf(b), wf(c), b.hd@[l], c.hd@[l], 0 <= k <= a.seq@[l].len(), grown(a, b, l, k, v), c.seq@[l] == b.seq@[l].insert(k + v.len(), n),
        vals(c, l) =~= vals(b, l).insert(k + v.len(), ev(c.e@, n))
    ensures grown(a, c, l, k, v.push(ev(c.e@, n)))
{
}
// the values from one position of a list to another one
pub open spec fn vrange(h: H, f: int, l: int) -> Seq<Val> { vals(h, lof(h, f)).subrange(pix(h, f), pix(h, l)) }
pub open spec fn isrange(h: H, f: int, l: int) -> bool { ispos(h, f) && ispos(h, l) && lof(h, f) == lof(h, l) && pix(h, f) <= pix(h, l) }
pub open spec fn gone(a: H, b: H, l: int) -> bool {
    &&& !b.hd@[l] && forall|q: int| q != l ==> #[trigger] b.hd@[q] == a.hd@[q]
    &&& forall|q: int| q != l ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& forall|p: int| #[trigger] (a.own@)(p) == l ==> b.e@[p] is No && !b.nd@[p] && (b.own@)(p) == 0
    &&& forall|p: int| (a.own@)(p) != l ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|p: int| (a.own@)(p) != l ==> #[trigger] (b.own@)(p) == (a.own@)(p)
}
// ---- the nodes of s that d does not drop
pub open spec fn fln(s: Seq<int>, d: spec_fn(int) -> bool) -> Seq<int> decreases s.len() {
    if s.len() == 0 { s } else if d(s.last()) { fln(s.drop_last(), d) } else { fln(s.drop_last(), d).push(s.last()) }
}
pub open spec fn d_val(e: IMap<int, Slot>, v: Val, o: int) -> spec_fn(int) -> bool { |n: int| n != o && veq(ev(e, n), v) }
pub open spec fn d_pp(e: IMap<int, Slot>) -> spec_fn(int) -> bool { |n: int| pp(ev(e, n)) }
pub open spec fn distinct(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
// one more node looked at
pub proof fn fln_step(s: Seq<int>, j: int, d: spec_fn(int) -> bool) requires 0 <= j < s.len()
    ensures fln(s.subrange(0, j + 1), d) == (if d(s[j]) { fln(s.subrange(0, j), d) } else { fln(s.subrange(0, j), d).push(s[j]) })
{ assert(s.subrange(0, j + 1).drop_last() =~= s.subrange(0, j)); }
pub proof fn fln_in(s: Seq<int>, d: spec_fn(int) -> bool)
    ensures fln(s, d).len() <= s.len(), forall|i: int| 0 <= i < fln(s, d).len() ==> s.contains(#[trigger] fln(s, d)[i]) && !d(fln(s, d)[i]) decreases s.len()
{
    if s.len() != 0 {
        let t = s.drop_last();
        fln_in(t, d);
        assert forall|i: int| 0 <= i < fln(s, d).len() implies s.contains(#[trigger] fln(s, d)[i]) && !d(fln(s, d)[i]) by {
            if i < fln(t, d).len() { assert(fln(s, d)[i] == fln(t, d)[i]); assert(t.contains(fln(t, d)[i])); let k = choose|k: int| 0 <= k < t.len() && t[k] == fln(t, d)[i]; assert(s[k] == fln(t, d)[i]); }
            else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}
pub proof fn fln_same(s: Seq<int>, d: spec_fn(int) -> bool, f: spec_fn(int) -> bool) requires forall|i: int| 0 <= i < s.len() ==> d(#[trigger] s[i]) == f(s[i])
    ensures fln(s, d) == fln(s, f) decreases s.len()
{ if s.len() != 0 { fln_same(s.drop_last(), d, f); assert(s[s.len() - 1] == s.last()); } }
// removing the node o, spared so far, from the result
pub proof fn fln_own(s: Seq<int>, e: IMap<int, Slot>, v: Val, o: int, k: int)
    requires distinct(s), o != 0, veq(ev(e, o), v), 0 <= k < fln(s, d_val(e, v, o)).len(), fln(s, d_val(e, v, o))[k] == o, forall|i: int| 0 <= i < s.len() ==> s[i] != 0
    ensures fln(s, d_val(e, v, 0)) =~= fln(s, d_val(e, v, o)).remove(k) decreases s.len()
{
    let t = s.drop_last(); let d = d_val(e, v, o); let f = d_val(e, v, 0);
    fln_in(t, d); fln_in(t, f);
    if s.last() == o {
        assert forall|i: int| 0 <= i < t.len() implies d(#[trigger] t[i]) == f(t[i]) by { assert(s[i] != s[s.len() - 1]); assert(s[i] != 0); }
        fln_same(t, d, f);
        if k < fln(t, d).len() { assert(t.contains(fln(t, d)[k])); let q = choose|q: int| 0 <= q < t.len() && t[q] == o; assert(s[q] == s[s.len() - 1]); }
    } else {
        assert(s[s.len() - 1] != 0);
        if !d(s.last()) { assert(k < fln(t, d).len()); }
        fln_own(t, e, v, o, k);
        if !d(s.last()) { assert(fln(t, d).push(s.last()).remove(k) =~= fln(t, d).remove(k).push(s.last())); }
    }
}
// ---- unique: the first node of every run of equal ones
pub open spec fn uqn(s: Seq<int>, d: spec_fn(int, int) -> bool) -> Seq<int> decreases s.len() {
    if s.len() == 0 { s } else { let r = uqn(s.drop_last(), d); if r.len() > 0 && d(s.last(), r.last()) { r } else { r.push(s.last()) } }
}
pub open spec fn d2_eq(e: IMap<int, Slot>) -> spec_fn(int, int) -> bool { |n: int, p: int| veq(ev(e, n), ev(e, p)) }
pub open spec fn d2_bp(e: IMap<int, Slot>) -> spec_fn(int, int) -> bool { |n: int, p: int| bp(ev(e, n), ev(e, p)) }
pub proof fn uqn_step(s: Seq<int>, j: int, d: spec_fn(int, int) -> bool) requires 0 <= j < s.len()
    ensures ({ let r = uqn(s.subrange(0, j), d); uqn(s.subrange(0, j + 1), d) == (if r.len() > 0 && d(s[j], r.last()) { r } else { r.push(s[j]) }) })
{ assert(s.subrange(0, j + 1).drop_last() =~= s.subrange(0, j)); }
// ---- merge: c(o, i) says that node o of the other list goes before node i
pub open spec fn mrg(a: Seq<int>, b: Seq<int>, c: spec_fn(int, int) -> bool) -> Seq<int> decreases a.len() + b.len() {
    if a.len() == 0 { b } else if b.len() == 0 { a } else if c(b[0], a[0]) { seq![b[0]] + mrg(a, b.drop_first(), c) } else { seq![a[0]] + mrg(a.drop_first(), b, c) }
}
pub open spec fn c_lt(e: IMap<int, Slot>) -> spec_fn(int, int) -> bool { |n: int, p: int| vlt(ev(e, n), ev(e, p)) }
pub open spec fn c_cp(e: IMap<int, Slot>) -> spec_fn(int, int) -> bool { |n: int, p: int| cp(ev(e, n), ev(e, p)) }
pub open spec fn srt(s: Seq<int>, c: spec_fn(int, int) -> bool) -> bool { forall|i: int| 0 < i < s.len() ==> !c(s[i], #[trigger] s[i - 1]) }
pub open spec fn eqs(a: Seq<Val>, b: Seq<Val>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> veq(#[trigger] a[i], b[i]) }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }

// t is s without the elements of a range that begins at a and ends somewhere up to b
pub open spec fn cut(s: Seq<int>, t: Seq<int>, a: int, b: int) -> bool { exists|j: int| a <= j <= b && t =~= s.subrange(0, a) + #[trigger] s.subrange(j, s.len() as int) }
