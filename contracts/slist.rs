// ---- heap of the single-linked lists: links, tail pointers, the values in the nodes, which addresses are allocated nodes
// and which are the heads of live lists (kd: 1 forward_list, 2 backward_list, 3 lazy_queue, 4 its list of unused nodes);
// ghost: the sequence of nodes of every list, the list a node belongs to and its position there
pub struct H {
    pub e: Ghost<IMap<int, Slot>>,
    pub next: Ghost<IMap<int, int>>, pub tail: Ghost<IMap<int, int>>,
    pub nd: Ghost<IMap<int, bool>>,
    pub hd: Ghost<IMap<int, bool>>, pub kd: Ghost<IMap<int, int>>,
    pub seq: Ghost<IMap<int, Seq<int>>>,
    pub own: Ghost<spec_fn(int) -> int>, pub idx: Ghost<spec_fn(int) -> int>,
}
pub open spec fn linkok(h: H, p: int) -> bool { h.nd@[p] || h.hd@[p] }
pub fn ld_next(h: &H, p: Ptr) -> (r: Ptr) requires linkok(*h, p@) ensures r@ == h.next@[p@] { Ptr { a: Ghost(h.next@[p@]) } }
pub fn st_next(h: &mut H, p: Ptr, v: Ptr) requires linkok(*old(h), p@) ensures *final(h) == (H { next: Ghost(old(h).next@.insert(p@, v@)), ..*old(h) }) { *h = H { next: Ghost(h.next@.insert(p@, v@)), ..*h }; }
pub fn ld_tail(h: &H, p: Ptr) -> (r: Ptr) requires h.hd@[p@] ensures r@ == h.tail@[p@] { Ptr { a: Ghost(h.tail@[p@]) } }
pub fn st_tail(h: &mut H, p: Ptr, v: Ptr) requires old(h).hd@[p@] ensures *final(h) == (H { tail: Ghost(old(h).tail@.insert(p@, v@)), ..*old(h) }) { *h = H { tail: Ghost(h.tail@.insert(p@, v@)), ..*h }; }
// new node, operator new(sizeof(node)): fresh storage
#[verifier::external_body]
pub fn node_new(h: &mut H) -> (r: Ptr)
    ensures r@ != 0, !old(h).nd@[r@], !old(h).hd@[r@], old(h).e@[r@] is No,
        *final(h) == (H { e: Ghost(old(h).e@.insert(r@, Slot::Raw)), nd: Ghost(old(h).nd@.insert(r@, true)), ..*old(h) }) { unimplemented!() }
// delete node, operator delete(node): there is no live value in it (any more)
pub fn node_del(h: &mut H, a: Ptr) requires old(h).nd@[a@], old(h).e@[a@] is Raw
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::No)), nd: Ghost(old(h).nd@.insert(a@, false)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::No)), nd: Ghost(h.nd@.insert(a@, false)), ..*h }; }

// ---- representation invariant. z: an allocated node outside of all lists
pub open spec fn at(h: H, l: int, i: int) -> int { if i == -1 { l } else if 0 <= i < h.seq@[l].len() { h.seq@[l][i] } else { 0 } }
pub open spec fn fits(h: H, l: int, n: int) -> bool { if h.kd@[l] == 4 { h.e@[n] is Raw } else { h.e@[n] is Live } }
pub open spec fn wfx(h: H, z: int) -> bool {
    &&& forall|n: int| #[trigger] (h.own@)(n) != 0 ==> h.nd@[n] && h.hd@[(h.own@)(n)] && 0 <= (h.idx@)(n) < h.seq@[(h.own@)(n)].len() && h.seq@[(h.own@)(n)][(h.idx@)(n)] == n
    &&& forall|l: int, i: int| h.hd@[l] && 0 <= i < h.seq@[l].len() ==> (h.own@)(#[trigger] h.seq@[l][i]) == l && (h.idx@)(h.seq@[l][i]) == i
    &&& forall|n: int| #[trigger] h.nd@[n] && n != z ==> (h.own@)(n) != 0
    &&& forall|l: int| #[trigger] h.hd@[l] ==> l != 0 && !h.nd@[l] && (h.own@)(l) == 0
    &&& z != 0 ==> h.nd@[z] && (h.own@)(z) == 0
    &&& forall|n: int| (h.own@)(n) != 0 ==> if h.kd@[(h.own@)(n)] == 4 { #[trigger] h.e@[n] is Raw } else { h.e@[n] is Live }
    &&& forall|n: int| (h.own@)(n) != 0 ==> #[trigger] h.next@[n] == at(h, (h.own@)(n), (h.idx@)(n) + 1)
    &&& forall|l: int| h.hd@[l] ==> #[trigger] h.next@[l] == at(h, l, 0)
    &&& forall|l: int| #[trigger] h.hd@[l] && h.kd@[l] == 3 ==> h.hd@[l + 1] && h.kd@[l + 1] == 4
    &&& !h.hd@[0] && !h.nd@[0]
}
pub open spec fn wf(h: H) -> bool { wfx(h, 0) }
// the tail pointers, but for list x
pub open spec fn tokx(h: H, x: int) -> bool { forall|l: int| h.hd@[l] && l != x && (h.kd@[l] == 2 || h.kd@[l] == 3) ==> #[trigger] h.tail@[l] == at(h, l, h.seq@[l].len() - 1) }
pub open spec fn wft(h: H) -> bool { wf(h) && tokx(h, 0) }
// positions: the position behind the head, behind a node
pub open spec fn lof(h: H, p: int) -> int { if h.hd@[p] { p } else { (h.own@)(p) } }
pub open spec fn pix(h: H, p: int) -> int { if h.hd@[p] { -1 } else { (h.idx@)(p) } }
pub open spec fn ispos(h: H, p: int) -> bool { h.hd@[p] || (h.own@)(p) != 0 }
// the values of a list
pub open spec fn vals(h: H, l: int) -> Seq<Val> { Seq::new(h.seq@[l].len(), |i: int| ev(h.e@, h.seq@[l][i])) }
// index of an element, or of the end (null), in list l
pub open spec fn eix(h: H, l: int, p: int) -> int { if p == 0 { h.seq@[l].len() as int } else { (h.idx@)(p) } }
pub open spec fn isrange(h: H, f: int, t: int) -> bool { f == 0 && t == 0 || (h.own@)(f) != 0 && f != 0 && (t == 0 || (h.own@)(t) == (h.own@)(f) && (h.idx@)(f) <= (h.idx@)(t)) }
pub open spec fn rlen(h: H, f: int, t: int) -> int { if f == 0 { 0 } else { eix(h, (h.own@)(f), t) - (h.idx@)(f) } }
pub open spec fn vrange(h: H, f: int, t: int) -> Seq<Val> { if f == 0 { Seq::empty() } else { vals(h, (h.own@)(f)).subrange((h.idx@)(f), eix(h, (h.own@)(f), t)) } }
// ---- ghost state after an insertion, a removal
pub open spec fn ins_own(h: H, l: int, n: int) -> spec_fn(int) -> int { |q: int| if q == n { l } else { (h.own@)(q) } }
pub open spec fn ins_idx(h: H, l: int, k: int, n: int) -> spec_fn(int) -> int { |q: int| if q == n { k } else if (h.own@)(q) == l && (h.idx@)(q) >= k { (h.idx@)(q) + 1 } else { (h.idx@)(q) } }
pub open spec fn ins_seq(h: H, l: int, k: int, n: int) -> IMap<int, Seq<int>> { h.seq@.insert(l, h.seq@[l].insert(k, n)) }
pub open spec fn del_idx(h: H, l: int, k: int) -> spec_fn(int) -> int { |q: int| if (h.own@)(q) == l && (h.idx@)(q) > k { (h.idx@)(q) - 1 } else { (h.idx@)(q) } }
pub open spec fn del_seq(h: H, l: int, k: int) -> IMap<int, Seq<int>> { h.seq@.insert(l, h.seq@[l].remove(k)) }
pub open spec fn del_own(h: H, n: int) -> spec_fn(int) -> int { |q: int| if q == n { 0 } else { (h.own@)(q) } }
pub open spec fn insd(a: H, b: H, l: int, k: int, n: int) -> bool {
    b == (H { next: b.next, seq: Ghost(ins_seq(a, l, k, n)), own: Ghost(ins_own(a, l, n)), idx: Ghost(ins_idx(a, l, k, n)), ..a })
}
pub open spec fn deld(a: H, b: H, n: int) -> bool {
    b == (H { next: b.next, seq: Ghost(del_seq(a, (a.own@)(n), (a.idx@)(n))), own: Ghost(del_own(a, n)), idx: Ghost(del_idx(a, (a.own@)(n), (a.idx@)(n))), ..a })
}
pub proof fn seq_ins(s: Seq<int>, k: int, n: int) requires 0 <= k <= s.len()
    ensures s.insert(k, n).len() == s.len() + 1, forall|i: int| 0 <= i <= s.len() ==> #[trigger] s.insert(k, n)[i] == (if i < k { s[i] } else if i == k { n } else { s[i - 1] }) {}
pub proof fn seq_del(s: Seq<int>, k: int) requires 0 <= k < s.len()
    ensures s.remove(k).len() == s.len() - 1, forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.remove(k)[i] == (if i < k { s[i] } else { s[i + 1] }) {}
pub open spec fn rev_idx(h: H, l: int) -> spec_fn(int) -> int { |q: int| if (h.own@)(q) == l && l != 0 { h.seq@[l].len() - 1 - (h.idx@)(q) } else { (h.idx@)(q) } }
pub open spec fn revd(a: H, b: H, l: int) -> bool {
    b == (H { next: b.next, seq: Ghost(a.seq@.insert(l, a.seq@[l].reverse())), idx: Ghost(rev_idx(a, l)), ..a })
}
// the nodes of lists x and y are exchanged
pub open spec fn swp(q: int, x: int, y: int) -> int { if q == x { y } else if q == y { x } else { q } }
pub open spec fn swp_own(h: H, x: int, y: int) -> spec_fn(int) -> int { |q: int| swp((h.own@)(q), x, y) }
// nodes [i,j) of list m are moved to position k of list l
pub open spec fn mv_seq(h: H, l: int, k: int, m: int, i: int, j: int) -> IMap<int, Seq<int>> {
    let s = h.seq@[l]; let t = h.seq@[m]; let d = j - i;
    if l != m {
        h.seq@.insert(m, Seq::new((t.len() - d) as nat, |x: int| if x < i { t[x] } else { t[x + d] }))
              .insert(l, Seq::new((s.len() + d) as nat, |x: int| if x < k { s[x] } else if x < k + d { t[i + x - k] } else { s[x - d] }))
    }
    else if k >= j { h.seq@.insert(l, Seq::new(s.len(), |x: int| if x < i || x >= k { s[x] } else if x < k - d { s[x + d] } else { s[x - (k - j)] })) }
    else { h.seq@.insert(l, Seq::new(s.len(), |x: int| if x < k || x >= j { s[x] } else if x < k + d { s[x + (i - k)] } else { s[x - d] })) }
}
pub open spec fn inr(h: H, q: int, m: int, i: int, j: int) -> bool { (h.own@)(q) == m && m != 0 && i <= (h.idx@)(q) < j }
pub open spec fn mv_own(h: H, l: int, m: int, i: int, j: int) -> spec_fn(int) -> int { |q: int| if inr(h, q, m, i, j) { l } else { (h.own@)(q) } }
pub open spec fn mv_idx(h: H, l: int, k: int, m: int, i: int, j: int) -> spec_fn(int) -> int {
    |q: int| {
        let o = (h.own@)(q); let x = (h.idx@)(q);
        if o == 0 { x }
        else if l != m { if inr(h, q, m, i, j) { x - i + k } else if o == l && x >= k { x + (j - i) } else if o == m && x >= j { x - (j - i) } else { x } }
        else if k >= j { if inr(h, q, m, i, j) { x + (k - j) } else if inr(h, q, m, j, k) { x - (j - i) } else { x } }
        else { if inr(h, q, m, i, j) { x - (i - k) } else if inr(h, q, m, k, i) { x + (j - i) } else { x } }
    }
}
pub open spec fn mvd(a: H, b: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    b == (H { next: b.next, seq: Ghost(mv_seq(a, l, k, m, i, j)), own: Ghost(mv_own(a, l, m, i, j)), idx: Ghost(mv_idx(a, l, k, m, i, j)), ..a })
}
// the links after nodes [i,j) of list m have been moved to position k of list l
pub open spec fn mv_pre(h: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    &&& wf(h) && h.hd@[l] && h.hd@[m] && 0 <= k <= h.seq@[l].len() && 0 <= i < j <= h.seq@[m].len() && (l == m ==> k < i || k > j) && (h.kd@[l] == 4) == (h.kd@[m] == 4)
}
pub open spec fn spl(a: H, b: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    &&& mvd(a, b, l, k, m, i, j)
    &&& forall|q: int| #[trigger] b.next@[q] == (if q == at(a, m, j - 1) { at(a, l, k) } else if q == at(a, m, i - 1) { at(a, m, j) } else if q == at(a, l, k - 1) { at(a, m, i) } else { a.next@[q] })
}
pub open spec fn wf_seq(h: H) -> bool {
    &&& forall|n: int| #[trigger] (h.own@)(n) != 0 ==> h.hd@[(h.own@)(n)] && 0 <= (h.idx@)(n) < h.seq@[(h.own@)(n)].len() && h.seq@[(h.own@)(n)][(h.idx@)(n)] == n
    &&& forall|l: int, i: int| h.hd@[l] && 0 <= i < h.seq@[l].len() ==> (h.own@)(#[trigger] h.seq@[l][i]) == l && (h.idx@)(h.seq@[l][i]) == i
}
pub proof fn spl_seq(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), mvd(a, b, l, k, m, i, j) ensures wf_seq(b) {}
pub proof fn spl_next(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), spl(a, b, l, k, m, i, j), wf_seq(b)
    ensures forall|n: int| (b.own@)(n) != 0 ==> #[trigger] b.next@[n] == at(b, (b.own@)(n), (b.idx@)(n) + 1), forall|q: int| b.hd@[q] ==> #[trigger] b.next@[q] == at(b, q, 0) {}
pub proof fn lem_spl(a: H, b: H, l: int, k: int, m: int, i: int, j: int) requires mv_pre(a, l, k, m, i, j), spl(a, b, l, k, m, i, j) ensures wf(b)
{ spl_seq(a, b, l, k, m, i, j); spl_next(a, b, l, k, m, i, j); }
// from a to b list l, whose unused nodes are in list d, may have got new nodes and may have released nodes; everything
// else is as it was
pub open spec fn fr(a: H, b: H, l: int, d: int) -> bool {
    &&& b.hd@[l] && b.hd@[d] && forall|q: int| q != l && q != d ==> #[trigger] b.hd@[q] == a.hd@[q]
    &&& forall|q: int| q != l && q != d ==> #[trigger] b.kd@[q] == a.kd@[q]
    &&& forall|q: int| q != l && q != d ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& forall|q: int| q != l && q != d ==> #[trigger] b.tail@[q] == a.tail@[q]
    &&& forall|p: int| !inld(a, p, l, d) && #[trigger] inld(b, p, l, d) ==> (a.own@)(p) == 0 && a.e@[p] is No && !a.nd@[p] && !b.hd@[p]
    &&& forall|p: int| #[trigger] inld(a, p, l, d) && !inld(b, p, l, d) ==> b.e@[p] is No && !b.nd@[p] && (b.own@)(p) == 0
    &&& forall|p: int| !inld(a, p, l, d) && !inld(b, p, l, d) ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|p: int| !inld(a, p, l, d) && !inld(b, p, l, d) ==> #[trigger] b.nd@[p] == a.nd@[p]
    &&& forall|p: int| !inld(a, p, l, d) && !inld(b, p, l, d) ==> #[trigger] (b.own@)(p) == (a.own@)(p)
}
pub open spec fn inld(h: H, p: int, l: int, d: int) -> bool { (h.own@)(p) == l || (h.own@)(p) == d }
pub proof fn fr_trans(a: H, b: H, c: H, l: int, d: int) requires fr(a, b, l, d), fr(b, c, l, d), wf(b) || forall|q: int| inld(b, q, l, d) ==> !c.hd@[q] ensures fr(a, c, l, d)
{
    assert forall|p: int| !inld(a, p, l, d) && #[trigger] inld(c, p, l, d) implies (a.own@)(p) == 0 && a.e@[p] is No && !a.nd@[p] && !c.hd@[p] by {
        if !inld(b, p, l, d) { assert(b.e@[p] == a.e@[p]); assert(b.nd@[p] == a.nd@[p]); assert((b.own@)(p) == (a.own@)(p)); }
        else { assert(!b.hd@[p]); if p != l && p != d { assert(c.hd@[p] == b.hd@[p]); } }
    }
    assert forall|p: int| #[trigger] inld(a, p, l, d) && !inld(c, p, l, d) implies c.e@[p] is No && !c.nd@[p] && (c.own@)(p) == 0 by {
        if !inld(b, p, l, d) { assert(c.e@[p] == b.e@[p]); assert(c.nd@[p] == b.nd@[p]); assert((c.own@)(p) == (b.own@)(p)); }
    }
    assert forall|p: int| !inld(a, p, l, d) && !inld(c, p, l, d) implies #[trigger] c.e@[p] == a.e@[p] by { if !inld(b, p, l, d) { assert(b.e@[p] == a.e@[p]); } }
    assert forall|p: int| !inld(a, p, l, d) && !inld(c, p, l, d) implies #[trigger] c.nd@[p] == a.nd@[p] by { if !inld(b, p, l, d) { assert(b.nd@[p] == a.nd@[p]); } }
    assert forall|p: int| !inld(a, p, l, d) && !inld(c, p, l, d) implies #[trigger] (c.own@)(p) == (a.own@)(p) by { if !inld(b, p, l, d) { assert((b.own@)(p) == (a.own@)(p)); } }
    assert forall|q: int| q != l && q != d implies #[trigger] c.hd@[q] == a.hd@[q] by { assert(b.hd@[q] == a.hd@[q]); }
    assert forall|q: int| q != l && q != d implies #[trigger] c.kd@[q] == a.kd@[q] by { assert(b.kd@[q] == a.kd@[q]); }
    assert forall|q: int| q != l && q != d implies #[trigger] c.seq@[q] == a.seq@[q] by { assert(b.seq@[q] == a.seq@[q]); }
    assert forall|q: int| q != l && q != d implies #[trigger] c.tail@[q] == a.tail@[q] by { assert(b.tail@[q] == a.tail@[q]); }
}
// the remaining nodes hold the values they held
pub open spec fn kept(a: H, b: H, l: int) -> bool { forall|i: int| 0 <= i < b.seq@[l].len() ==> b.e@[#[trigger] b.seq@[l][i]] == a.e@[b.seq@[l][i]] }
// from a to b nodes were only relinked
pub open spec fn relinked(a: H, b: H) -> bool { b == (H { next: b.next, tail: b.tail, seq: b.seq, own: b.own, idx: b.idx, ..a }) && forall|p: int| ((a.own@)(p) == 0) == (#[trigger] (b.own@)(p) == 0) }
pub open spec fn mvs(a: H, b: H, l: int, k: int, m: int, i: int, j: int) -> bool {
    let s = a.seq@[l]; let t = a.seq@[m];
    &&& relinked(a, b)
    &&& forall|q: int| q != l && q != m ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& l != m ==> b.seq@[l] =~= s.subrange(0, k) + t.subrange(i, j) + s.subrange(k, s.len() as int) && b.seq@[m] =~= t.subrange(0, i) + t.subrange(j, t.len() as int)
    &&& l == m && k >= j ==> b.seq@[l] =~= s.subrange(0, i) + s.subrange(j, k) + s.subrange(i, j) + s.subrange(k, s.len() as int)
    &&& l == m && k < j ==> b.seq@[l] =~= s.subrange(0, k) + s.subrange(i, j) + s.subrange(k, i) + s.subrange(j, s.len() as int)
}
// nodes with the values v have been inserted at position k of list l
pub open spec fn grown(a: H, b: H, l: int, k: int, v: Seq<Val>) -> bool {
    &&& b.seq@[l].len() == a.seq@[l].len() + v.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] b.seq@[l][i] == a.seq@[l][i]
    &&& forall|i: int| k + v.len() <= i < b.seq@[l].len() ==> #[trigger] b.seq@[l][i] == a.seq@[l][i - v.len()]
    &&& vals(b, l) =~= vals(a, l).subrange(0, k) + v + vals(a, l).subrange(k, a.seq@[l].len() as int)
}
pub open spec fn rep(n: int, v: Val) -> Seq<Val> { Seq::new(n as nat, |i: int| v) }
pub proof fn grow_step(a: H, b: H, c: H, l: int, k: int, v: Seq<Val>, n: int)
    requires wf(b), wf(c), b.hd@[l], c.hd@[l], 0 <= k <= a.seq@[l].len(), grown(a, b, l, k, v), c.seq@[l] == b.seq@[l].insert(k + v.len(), n),
        vals(c, l) =~= vals(b, l).insert(k + v.len(), ev(c.e@, n))
    ensures grown(a, c, l, k, v.push(ev(c.e@, n)))
{
}
pub open spec fn gone(a: H, b: H, l: int, d: int) -> bool {
    &&& !b.hd@[l] && !b.hd@[d] && forall|q: int| q != l && q != d ==> #[trigger] b.hd@[q] == a.hd@[q]
    &&& forall|q: int| q != l && q != d ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& forall|q: int| q != l && q != d ==> #[trigger] b.kd@[q] == a.kd@[q]
    &&& forall|q: int| q != l && q != d ==> #[trigger] b.tail@[q] == a.tail@[q]
    &&& forall|p: int| #[trigger] inld(a, p, l, d) ==> b.e@[p] is No && !b.nd@[p] && (b.own@)(p) == 0
    &&& forall|p: int| !inld(a, p, l, d) ==> #[trigger] b.e@[p] == a.e@[p]
    &&& forall|p: int| !inld(a, p, l, d) ==> #[trigger] (b.own@)(p) == (a.own@)(p)
}
// reverse: the nodes before index j have been turned round
pub open spec fn turned(h: H, l: int, j: int, q: int) -> bool { (h.own@)(q) == l && (h.idx@)(q) < j }
// lazy_queue: a node has been taken from the unused ones, or allocated
pub open spec fn got(a: H, b: H, d: int, n: int, v: Val) -> bool {
    &&& wfx(b, n) && n != 0
    &&& b == (H { e: Ghost(a.e@.insert(n, Slot::Live(v))), next: b.next, nd: b.nd, seq: b.seq, own: Ghost(del_own(a, n)), idx: b.idx, ..a })
    &&& forall|q: int| #[trigger] b.nd@[q] == (q == n || a.nd@[q])
    &&& (a.own@)(n) == d || (a.own@)(n) == 0 && !a.nd@[n] && !a.hd@[n] && a.e@[n] is No
    &&& forall|q: int| q != d ==> #[trigger] b.seq@[q] == a.seq@[q]
    &&& forall|q: int| q != n && (a.own@)(q) != d ==> #[trigger] (b.idx@)(q) == (a.idx@)(q)
}
pub open spec fn eqs(a: Seq<Val>, b: Seq<Val>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> veq(#[trigger] a[i], b[i]) }
// the elements of a range [f,t) before x
pub open spec fn vseg(h: H, f: int, x: int, t: int) -> Seq<Val> { if f == 0 { Seq::empty() } else if x == t { vrange(h, f, t) } else { vrange(h, f, x) } }
