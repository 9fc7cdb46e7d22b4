// ---- removal. Edges from the root down to edge e have been passed; the nodes on the way may be out of order until the way back
pub open spec fn mr(h: H, n: int) -> bool { (h.mr@)(n) }
pub open spec fn setmr(h: H, n: int, b: bool) -> H { H { mr: Ghost(|m: int| if m == n { b } else { mr(h, m) }), ..h } }
// m is p or above p
pub open spec fn anc(h: H, t: int, p: int, m: int) -> bool { p != t && own(h, m) == t && lo(h, m) <= idx(h, p) < hi(h, m) }
// the child of m that is not on the way to e
pub open spec fn oth(h: H, e: (int, int), m: int) -> int {
    if m == e.0 { if e.1 == 1 { h.ri@[m] } else { h.le@[m] } } else if idx(h, e.0) < idx(h, m) { h.ri@[m] } else { h.le@[m] }
}
pub open spec fn wp1(h: H, m: int, o: int) -> bool {
    if red(h, m) { !red(h, o) && !mr(h, m) && mr(h, h.pa@[m]) } else { red(h, o) && mr(h, m) ==> mr(h, h.pa@[m]) }
}
pub open spec fn wp(h: H, t: int, e: (int, int), m: int) -> bool { h.pa@[m] == t || wp1(h, m, oth(h, e, m)) }
pub open spec fn ab(h: H, t: int, e: (int, int)) -> bool { forall|m: int| anc(h, t, e.0, m) ==> #[trigger] wp(h, t, e, m) }
pub open spec fn lower(h: H, t: int, e: (int, int), x: int) -> bool { forall|m: int| own(h, m) == t && !anc(h, t, e.0, m) && m != x ==> #[trigger] cs(h, m) }
// on the way back: what is below e is in order
pub open spec fn upw(h: H, t: int, e: (int, int)) -> bool {
    &&& ws(h, t) && eok(h, t, e) && ab(h, t, e)
    &&& e.0 != t ==> lower(h, t, e, 0) && (red(h, get(h, e)) ==> mr(h, e.0))
    &&& e.0 == t ==> lower(h, t, e, get(h, e)) && (get(h, e) != 0 ==> !red(h, h.ri@[get(h, e)]))
}
// on the way down
pub open spec fn spc(h: H, y: int) -> bool { y != 0 && !red(h, y) && !red(h, h.le@[y]) && red(h, h.ri@[y]) }
pub open spec fn dnw(h: H, t: int, e: (int, int)) -> bool {
    let y = get(h, e);
    &&& ws(h, t) && eok(h, t, e) && ab(h, t, e)
    &&& lower(h, t, e, if spc(h, y) { y } else { 0 })
    &&& e.0 != t && red(h, y) ==> mr(h, e.0)
    &&& e.0 == t ==> !spc(h, y) && !red(h, y)
    &&& y != 0 ==> e.0 == t || red(h, y) || red(h, h.le@[y]) || spc(h, y)
}
// what a change below e leaves alone
pub open spec fn outs(h: H, f: H, m: int) -> bool { kept(h, f, m) && f.pa@[m] == h.pa@[m] && lo(f, m) == lo(h, m) && hi(f, m) == hi(h, m) }
pub open spec fn loc(h: H, f: H, t: int, e: (int, int), n: int, z: int) -> bool {
    &&& ws(f, t) && eo(f, t, e, z) && get(f, e) == z && frs(h, f, t) && f.mr == h.mr && lo(f, z) == lo(h, n) && hi(f, z) == hi(h, n)
    &&& forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) && m != e.0 ==> #[trigger] outs(h, f, m)
    &&& f.co@[e.0] == h.co@[e.0]
    &&& e.0 != t ==> f.pa@[e.0] == h.pa@[e.0] && lo(f, e.0) == lo(h, e.0) && hi(f, e.0) == hi(h, e.0)
    &&& e.1 != 1 ==> f.le@[e.0] == h.le@[e.0]
    &&& e.1 != 2 ==> f.ri@[e.0] == h.ri@[e.0]
}
// whatever is above p is above its parent
pub proof fn lem_cov_pa(h: H, t: int, p: int, m: int)
    requires ws(h, t), own(h, p) == t, own(h, m) == t, m != p, lo(h, m) <= idx(h, p) < hi(h, m)
    ensures h.pa@[p] != t, own(h, h.pa@[p]) == t, lo(h, m) <= idx(h, h.pa@[p]) < hi(h, m)
    decreases hi(h, m) - lo(h, m)
{
    assert(wn(h, t, m)); assert(wn(h, t, p));
    if idx(h, p) == idx(h, m) { assert(ns(h, t)[idx(h, p)] == p); assert(ns(h, t)[idx(h, m)] == m); }
    let c = if idx(h, p) < idx(h, m) { h.le@[m] } else { h.ri@[m] };
    assert(c != 0); assert(wn(h, t, c));
    if c != p { lem_cov_pa(h, t, p, c); } else { assert(h.pa@[p] == m); }
    if m == t { assert(own(h, t) == t); }
}
pub proof fn lem_side(h: H, t: int, e: (int, int), m: int)
    requires ws(h, t), eok(h, t, e), anc(h, t, e.0, m)
    ensures ({ let o = oth(h, e, m); (o != 0 ==> own(h, o) == t && h.pa@[o] == m && !(ea(h, t, e) <= idx(h, o) < eb(h, t, e)) && o != e.0)
        && !(ea(h, t, e) <= idx(h, m) < eb(h, t, e)) && lo(h, m) <= ea(h, t, e) && eb(h, t, e) <= hi(h, m) && wn(h, t, m) && m != t && !anc(h, t, e.0, o) })
{
    lem_nest(h, t, m, e.0); assert(wn(h, t, m)); assert(wn(h, t, e.0)); let o = oth(h, e, m);
    let c = if m == e.0 { get(h, e) } else if idx(h, e.0) < idx(h, m) { h.le@[m] } else { h.ri@[m] };
    if m != e.0 { assert(idx(h, m) != idx(h, e.0)) by { assert(ns(h, t)[idx(h, m)] == m); assert(ns(h, t)[idx(h, e.0)] == e.0); } assert(c != 0); assert(wn(h, t, c)); lem_nest(h, t, c, e.0); }
    if o != 0 { assert(own(h, o) == t); assert(wn(h, t, o)); } else { assert(own(h, 0) != t) by { if own(h, 0) == t { assert(wn(h, t, 0)); } } }
    if m == t { assert(own(h, t) == t); }
}
pub proof fn lem_ab(h: H, f: H, t: int, e: (int, int), n: int, z: int)
    requires ws(h, t), eok(h, t, e), eo(h, t, e, n), get(h, e) == n, ab(h, t, e), loc(h, f, t, e, n, z)
    ensures ab(f, t, e), eok(f, t, e), forall|m: int| #![trigger anc(f, t, e.0, m)] anc(f, t, e.0, m) == anc(h, t, e.0, m)
{
    lem_edge(h, t, e);
    if e.0 != t {
        assert(wn(h, t, e.0)); assert(wn(f, t, e.0));
        assert forall|m: int| #![trigger anc(f, t, e.0, m)] anc(f, t, e.0, m) == anc(h, t, e.0, m) by {
            if own(h, m) == t {
                if lo(h, n) <= idx(h, m) < hi(h, n) { lem_nest(h, t, n, m); lem_nest(f, t, z, m); assert(wn(h, t, m)); } else { if m != e.0 { assert(outs(h, f, m)); } }
            }
        }
        assert forall|m: int| anc(f, t, e.0, m) implies #[trigger] wp(f, t, e, m) by {
            assert(anc(h, t, e.0, m)); lem_side(h, t, e, m); assert(wp(h, t, e, m)); let o = oth(h, e, m);
            if m != e.0 { assert(outs(h, f, m)); }
            assert(oth(f, e, m) == o);
            if o != 0 { assert(outs(h, f, o)); }
        }
    }
}
// below e, node y is passed on the side s; a child may come back red or not (b)
pub proof fn lem_push(h: H, t: int, e: (int, int), y: int, s: int, b: bool, x: int)
    requires ws(h, t), eok(h, t, e), get(h, e) == y, y != 0, ab(h, t, e), s == 1 || s == 2,
        forall|m: int| own(h, m) == t && !anc(h, t, e.0, m) && m != y && m != x ==> #[trigger] cs(h, m),
        e.0 == t || (if red(h, y) { !red(h, oth(h, (y, s), y)) && !b && mr(h, e.0) } else { red(h, oth(h, (y, s), y)) && b ==> mr(h, e.0) })
    ensures ({ let g = setmr(h, y, b); ws(g, t) && eok(g, t, (y, s)) && ab(g, t, (y, s)) && lower(g, t, (y, s), x) })
{
    let g = setmr(h, y, b); let e2 = (y, s);
    lem_edge(h, t, e);
    assert forall|m: int| own(g, m) == t implies #[trigger] wn(g, t, m) && bn(g, m) by { assert(wn(h, t, m)); assert(bn(h, m)); }
    assert(wh(g, t));
    if y == t { assert(own(h, t) == t); }
    assert forall|m: int| anc(h, t, y, m) implies m == y || anc(h, t, e.0, m) by { if m != y { lem_cov_pa(h, t, y, m); } }
    assert forall|m: int| anc(h, t, e.0, m) implies anc(h, t, y, m) && m != y by { lem_side(h, t, e, m); assert(wn(h, t, y)); }
    assert forall|m: int| anc(g, t, y, m) implies #[trigger] wp(g, t, e2, m) by {
        assert(anc(h, t, y, m)); assert(wn(h, t, m));
        if m != y { assert(anc(h, t, e.0, m)); assert(wp(h, t, e, m)); lem_side(h, t, e, m); assert(wn(h, t, y));
            assert(oth(g, e2, m) == oth(h, e, m));
            assert(h.pa@[m] != y) by { if h.pa@[m] == y { assert(h.pa@[y] == e.0); assert(own(h, y) == t); assert(wn(h, t, m)); lem_nest(h, t, y, m); } }
        } else { assert(h.pa@[y] == e.0); }
    }
    assert forall|m: int| own(g, m) == t && !anc(g, t, y, m) && m != x implies #[trigger] cs(g, m) by { assert(cs(h, m)) by { if m == y { assert(wn(h, t, y)); } else { assert(!anc(h, t, y, m)); } } }
}
pub proof fn lem_fix_loc(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, fxok(h, t, e, n)
    ensures ({ let f = put(fx(h, n).0, e, fx(h, n).1); fxd(h, f, t, e, n, fx(h, n).1) && loc(h, f, t, e, n, fx(h, n).1) }), okfx(h, n), al(fx(h, n).0, e.0), 0 <= e.1 <= 2
{
    lem_fix(h, t, e, n);
    let f = put(fx(h, n).0, e, fx(h, n).1);
    assert(wn(h, t, n)); let l = h.le@[n]; let r = h.ri@[n];
    if l != 0 { assert(wn(h, t, l)); if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } } if r != 0 { assert(wn(h, t, r)); }
    assert forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) && m != e.0 implies #[trigger] outs(h, f, m) by {
        assert(wn(h, t, m)); assert(!tch(h, n, m)); assert(kept(h, f, m));
        let p = h.pa@[m]; if p != t { assert(wn(h, t, p)); } if tch(h, n, p) { lem_nest(h, t, n, p); assert(wn(h, t, p)); }
        assert(f.pa@[m] == h.pa@[m]);
    }
    if e.0 != t { assert(wn(h, t, e.0)); let p = h.pa@[e.0]; if p != t { assert(wn(h, t, p)); } if p != 0 && tch(h, n, p) { if p == t { assert(own(h, t) == 0); } lem_nest(h, t, n, p); assert(wn(h, t, p)); } }
}
pub proof fn lem_top(h: H, t: int, p: int, m: int)
    requires ws(h, t), own(h, p) == t, h.pa@[p] == t
    ensures anc(h, t, p, m) ==> m == p, p == h.pa@[t]
{ assert(wn(h, t, p)); if anc(h, t, p, m) && m != p { lem_cov_pa(h, t, p, m); } }
// one step back up
pub proof fn lem_up(h: H, t: int, e: (int, int), g: (int, int))
    requires upw(h, t, e), e.0 != t, eo(h, t, g, e.0), get(h, g) == e.0
    ensures fxok(h, t, g, e.0), okfx(h, e.0), ({ let f = put(fx(h, e.0).0, g, fx(h, e.0).1); upw(f, t, g) && loc(h, f, t, g, e.0, fx(h, e.0).1) && fxd(h, f, t, g, e.0, fx(h, e.0).1) }), al(fx(h, e.0).0, g.0), 0 <= g.1 <= 2
{
    let p = e.0; let l = h.le@[p]; let r = h.ri@[p]; let y = get(h, e); let z = fx(h, p).1;
    lem_edge(h, t, e); assert(wn(h, t, p));
    assert(anc(h, t, p, p)); assert(wp(h, t, e, p));
    if l != 0 { assert(wn(h, t, l)); assert(!anc(h, t, p, l)); assert(cs(h, l)); }
    if r != 0 { assert(wn(h, t, r)); assert(!anc(h, t, p, r)); assert(cs(h, r)); }
    lem_fix_loc(h, t, g, p);
    let f = put(fx(h, p).0, g, z);
    assert(eok(h, t, g));
    assert forall|m: int| anc(h, t, g.0, m) implies #[trigger] wp(h, t, g, m) && anc(h, t, p, m) by {
        assert(wn(h, t, g.0)); lem_nest(h, t, m, g.0); assert(wn(h, t, m)); assert(anc(h, t, p, m)); assert(wp(h, t, e, m)); lem_side(h, t, e, m); lem_side(h, t, g, m); assert(wn(h, t, g.0)); assert(ns(h, t)[idx(h, m)] == m); assert(ns(h, t)[idx(h, g.0)] == g.0); assert(oth(h, g, m) == oth(h, e, m));
    }
    lem_ab(h, f, t, g, p, z);
    assert forall|m: int| own(h, m) == t && !anc(h, t, g.0, m) && m != p implies #[trigger] cs(h, m) by {
        assert(wn(h, t, m)); if anc(h, t, p, m) { lem_cov_pa(h, t, p, m); }
    }
    assert forall|m: int| own(f, m) == t && !anc(f, t, g.0, m) && m != z implies #[trigger] cs(f, m) by {
        assert(!anc(h, t, g.0, m)); if g.0 != t { assert(wn(h, t, g.0)); assert(anc(h, t, g.0, g.0)); }
        if m != p { assert(cs(h, m)); }
        if g.0 == t { assert(own(h, t) == 0); }
    }
    if g.0 != t { assert(wn(f, t, z)); assert(cs(f, z)); }
}
// ---- the steps on the way down
pub open spec fn mvl(h: H, n: int) -> (H, int) {
    let a = flip(h, n); let r = a.ri@[n]; let z = a.le@[r];
    if red(a, z) { (flip(rotl(put(rotr(a, r), (n, 2), z), n), z), z) } else { (a, n) }
}
pub open spec fn mvr(h: H, n: int) -> (H, int) {
    let a = flip(h, n); let l = a.le@[n];
    if red(a, a.le@[l]) { (flip(rotr(a, n), l), l) } else { (a, n) }
}
// n, its children and the inner grandchildren are there and are different nodes
pub open spec fn okmv(h: H, n: int) -> bool {
    let l = h.le@[n]; let r = h.ri@[n]; let z = h.le@[r];
    &&& okfx(h, n) && l != 0 && r != 0
    &&& z != 0 ==> z != n && z != r && h.le@[z] != n && h.ri@[z] != r && (h.le@[z] != 0 ==> al(h, h.le@[z])) && (h.ri@[z] != 0 ==> al(h, h.ri@[z]))
}
pub proof fn lem_unput(h: H, t: int, e: (int, int), n: int)
    requires ws(put(h, e, n), t), eo(put(h, e, n), t, e, n), get(h, e) == n, 0 <= e.1 <= 2
    ensures ws(h, t), eo(h, t, e, n)
{
    let g = put(h, e, n);
    assert forall|m: int| #![trigger h.pa@[m]] #![trigger g.pa@[m]] g.pa@[m] == h.pa@[m] by { }
    assert forall|m: int| #![trigger h.le@[m]] #![trigger g.le@[m]] g.le@[m] == h.le@[m] by { }
    assert forall|m: int| #![trigger h.ri@[m]] #![trigger g.ri@[m]] g.ri@[m] == h.ri@[m] by { }
    assert(wh(h, t));
    assert forall|m: int| own(h, m) == t implies #[trigger] wn(h, t, m) && bn(h, m) by { assert(wn(g, t, m)); assert(bn(g, m)); }
}
pub proof fn lem_mvl_ws(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, h.le@[n] != 0, h.ri@[n] != 0, !red(h, h.le@[n]), !red(h, h.ri@[n]), e.0 == t || red(h, n)
    ensures ({ let f = put(mvl(h, n).0, e, mvl(h, n).1); let z = mvl(h, n).1; ws(f, t) && eo(f, t, e, z) }), okmv(h, n)
{
    lem_put(h, t, e, n); lem_edge(h, t, e);
    let l = h.le@[n]; let r = h.ri@[n]; let z = h.le@[r];
    assert(wn(h, t, n)); assert(wn(h, t, l)); assert(wn(h, t, r));
    if z != 0 { assert(wn(h, t, z)); if h.le@[z] != 0 { assert(wn(h, t, h.le@[z])); } if h.ri@[z] != 0 { assert(wn(h, t, h.ri@[z])); } } if h.ri@[r] != 0 { assert(wn(h, t, h.ri@[r])); }
    if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } if h.ri@[l] != 0 { assert(wn(h, t, h.ri@[l])); }
    if e.0 != t { assert(wn(h, t, e.0)); }
    assert(okfx(h, n));
    lem_flip(h, t, e, n);
    let a = flip(h, n);
    if red(a, a.le@[a.ri@[n]]) {
        lem_unput(a, t, e, n);
        assert(eo(a, t, (n, 2), r)); assert(get(a, (n, 2)) == r);
        lem_put(a, t, (n, 2), r);
        lem_rotr(a, t, (n, 2), r);
        let b = put(rotr(a, r), (n, 2), z);
        assert(eo(b, t, e, n)); assert(get(b, e) == n);
        lem_put(b, t, e, n);
        lem_rotl(b, t, e, n);
        let c = rotl(b, n);
        lem_flip(c, t, e, z);
    }
}
pub proof fn lem_mvr_ws(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, h.le@[n] != 0, h.ri@[n] != 0, !red(h, h.le@[n]), !red(h, h.ri@[n]), e.0 == t || red(h, n)
    ensures ({ let f = put(mvr(h, n).0, e, mvr(h, n).1); let z = mvr(h, n).1; ws(f, t) && eo(f, t, e, z) }), okmv(h, n)
{
    lem_put(h, t, e, n); lem_edge(h, t, e);
    let l = h.le@[n]; let r = h.ri@[n];
    assert(wn(h, t, n)); assert(wn(h, t, l)); assert(wn(h, t, r));
    let z = h.le@[r]; if z != 0 { assert(wn(h, t, z)); if h.le@[z] != 0 { assert(wn(h, t, h.le@[z])); } if h.ri@[z] != 0 { assert(wn(h, t, h.ri@[z])); } } if h.ri@[r] != 0 { assert(wn(h, t, h.ri@[r])); }
    if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } if h.ri@[l] != 0 { assert(wn(h, t, h.ri@[l])); }
    if e.0 != t { assert(wn(h, t, e.0)); }
    assert(okfx(h, n));
    lem_flip(h, t, e, n);
    let a = flip(h, n);
    if red(a, a.le@[a.le@[n]]) {
        lem_rotr(a, t, e, n);
        let c = rotr(a, n);
        lem_flip(c, t, e, l);
    }
}
pub proof fn lem_loc(h: H, f: H, t: int, e: (int, int), n: int, z: int)
    requires ws(h, t), ws(f, t), eo(h, t, e, n), get(h, e) == n, eo(f, t, e, z), get(f, e) == z, frs(h, f, t), f.mr == h.mr, lo(f, z) == lo(h, n), hi(f, z) == hi(h, n),
        forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) ==> #[trigger] lo(f, m) == lo(h, m) && hi(f, m) == hi(h, m) && f.co@[m] == h.co@[m] && bh(f, m) == bh(h, m),
        forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) && !(own(h, h.pa@[m]) == t && lo(h, n) <= idx(h, h.pa@[m]) < hi(h, n)) ==> #[trigger] f.pa@[m] == h.pa@[m],
        forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) && m != e.0 ==> #[trigger] f.le@[m] == h.le@[m] && f.ri@[m] == h.ri@[m],
        f.co@[e.0] == h.co@[e.0], e.1 != 1 ==> f.le@[e.0] == h.le@[e.0], e.1 != 2 ==> f.ri@[e.0] == h.ri@[e.0],
    ensures loc(h, f, t, e, n, z)
{
    assert(wn(h, t, n));
    assert forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) implies f.pa@[m] == h.pa@[m] by {
        assert(wn(h, t, m)); let p = h.pa@[m]; if p != t { assert(wn(h, t, p)); if lo(h, n) <= idx(h, p) < hi(h, n) { lem_nest(h, t, n, p); } } else { assert(own(h, t) == 0); }
    }
    assert forall|m: int| own(h, m) == t && !(lo(h, n) <= idx(h, m) < hi(h, n)) && m != e.0 implies #[trigger] outs(h, f, m) by {
        assert(lo(f, m) == lo(h, m)); assert(f.pa@[m] == h.pa@[m]); assert(f.le@[m] == h.le@[m]);
    }
    if e.0 != t { assert(wn(h, t, e.0)); assert(lo(f, e.0) == lo(h, e.0)); }
}
pub proof fn lem_mvl_loc(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, h.le@[n] != 0, h.ri@[n] != 0, !red(h, h.le@[n]), !red(h, h.ri@[n]), e.0 == t || red(h, n)
    ensures ({ let f = put(mvl(h, n).0, e, mvl(h, n).1); loc(h, f, t, e, n, mvl(h, n).1) })
{
    lem_mvl_ws(h, t, e, n); lem_edge(h, t, e);
    let l = h.le@[n]; let r = h.ri@[n]; let z = h.le@[r]; let f = put(mvl(h, n).0, e, mvl(h, n).1);
    assert(wn(h, t, n)); assert(wn(h, t, l)); assert(wn(h, t, r));
    if z != 0 { assert(wn(h, t, z)); if h.le@[z] != 0 { assert(wn(h, t, h.le@[z])); } if h.ri@[z] != 0 { assert(wn(h, t, h.ri@[z])); } }
    if e.0 != t { assert(wn(h, t, e.0)); }
    assert(frs(h, f, t));
    lem_loc(h, f, t, e, n, mvl(h, n).1);
}
pub proof fn lem_mvr_loc(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, h.le@[n] != 0, h.ri@[n] != 0, !red(h, h.le@[n]), !red(h, h.ri@[n]), e.0 == t || red(h, n)
    ensures ({ let f = put(mvr(h, n).0, e, mvr(h, n).1); loc(h, f, t, e, n, mvr(h, n).1) })
{
    lem_mvr_ws(h, t, e, n); lem_edge(h, t, e);
    let l = h.le@[n]; let r = h.ri@[n]; let f = put(mvr(h, n).0, e, mvr(h, n).1);
    assert(wn(h, t, n)); assert(wn(h, t, l)); assert(wn(h, t, r));
    if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } if h.ri@[l] != 0 { assert(wn(h, t, h.ri@[l])); }
    if e.0 != t { assert(wn(h, t, e.0)); }
    assert(frs(h, f, t));
    lem_loc(h, f, t, e, n, mvr(h, n).1);
}
pub proof fn lem_rotr_loc(h: H, t: int, e: (int, int), n: int)
    requires ws(h, t), eo(h, t, e, n), get(h, e) == n, red(h, h.le@[n])
    ensures ({ let f = put(rotr(h, n), e, h.le@[n]); loc(h, f, t, e, n, h.le@[n]) }), okfx(h, n), al(rotr(h, n), e.0), 0 <= e.1 <= 2
{
    lem_put(h, t, e, n); lem_rotr(h, t, e, n); lem_edge(h, t, e);
    let l = h.le@[n]; let r = h.ri@[n]; let f = put(rotr(h, n), e, l);
    assert(wn(h, t, n)); assert(wn(h, t, l)); if r != 0 { assert(wn(h, t, r)); if h.le@[r] != 0 { assert(wn(h, t, h.le@[r])); } if h.ri@[r] != 0 { assert(wn(h, t, h.ri@[r])); } }
    if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } if h.ri@[l] != 0 { assert(wn(h, t, h.ri@[l])); }
    if e.0 != t { assert(wn(h, t, e.0)); }
    assert(frs(h, f, t));
    lem_loc(h, f, t, e, n, l);
}
// f: what h becomes when the way goes on along edge g
pub open spec fn nxt(h: H, f: H, t: int, e: (int, int), g: (int, int)) -> bool {
    dnw(f, t, g) && frs(h, f, t) && g.0 != t && ea(h, t, e) <= ea(f, t, g) <= eb(f, t, g) <= eb(h, t, e) && eb(f, t, g) - ea(f, t, g) < eb(h, t, e) - ea(h, t, e)
    && ea(h, t, e) <= idx(h, g.0) < eb(h, t, e) && forall|m: int| own(h, m) == t && !(ea(h, t, e) <= idx(h, m) < eb(h, t, e)) ==> #[trigger] f.pa@[m] == h.pa@[m] && lo(f, m) == lo(h, m) && hi(f, m) == hi(h, m)
}
pub proof fn lem_dn_left(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, !spc(h, get(h, e)), ({ let l = h.le@[get(h, e)]; l == 0 || red(h, l) || red(h, h.le@[l]) })
    ensures ({ let y = get(h, e); let f = setmr(h, y, red(h, h.le@[y])); nxt(h, f, t, e, (y, 1)) && eb(f, t, (y, 1)) == idx(h, y) && ea(f, t, (y, 1)) == ea(h, t, e) })
{
    let y = get(h, e); let l = h.le@[y]; let f = setmr(h, y, red(h, l));
    lem_edge(h, t, e);
    assert(!anc(h, t, e.0, y)) by { if anc(h, t, e.0, y) { lem_side(h, t, e, y); } }
    assert(cs(h, y)); assert(bn(h, y));
    lem_push(h, t, e, y, 1, red(h, l), 0);
    if l != 0 { assert(wn(h, t, l)); assert(own(h, l) == t); assert(!anc(h, t, e.0, l)) by { if anc(h, t, e.0, l) { lem_side(h, t, e, l); } } assert(cs(h, l)); }
}
// a node on the right is red, or has a red left child; or the link is null
pub proof fn lem_dn_right(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, !red(h, h.le@[get(h, e)]), ({ let r = h.ri@[get(h, e)]; r == 0 || red(h, r) || red(h, h.le@[r]) })
    ensures ({ let y = get(h, e); let f = setmr(h, y, red(h, h.ri@[y])); nxt(h, f, t, e, (y, 2)) && ea(f, t, (y, 2)) == idx(h, y) + 1 && eb(f, t, (y, 2)) == eb(h, t, e) && !spc(f, h.ri@[y]) })
{
    let y = get(h, e); let r = h.ri@[y]; let f = setmr(h, y, red(h, r));
    lem_edge(h, t, e);
    assert(!anc(h, t, e.0, y)) by { if anc(h, t, e.0, y) { lem_side(h, t, e, y); } }
    if !spc(h, y) { assert(cs(h, y)); } assert(bn(h, y));
    lem_push(h, t, e, y, 2, red(h, r), 0);
    if r != 0 { assert(wn(h, t, r)); assert(own(h, r) == t); assert(!anc(h, t, e.0, r)) by { if anc(h, t, e.0, r) { lem_side(h, t, e, r); } } assert(cs(h, r)); }
}
pub proof fn lem_dn_pre(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, !spc(h, get(h, e)), !red(h, h.le@[get(h, e)]), h.le@[get(h, e)] != 0 || h.ri@[get(h, e)] != 0
    ensures ({ let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; l != 0 && r != 0 && !red(h, r) && (e.0 == t || red(h, y)) && cs(h, y) && cs(h, l) && cs(h, r) && (h.le@[r] != 0 ==> cs(h, h.le@[r])) && (h.le@[l] != 0 ==> cs(h, h.le@[l]))
        && eo(h, t, e, y) && wn(h, t, y) && wn(h, t, l) && wn(h, t, r) && (h.le@[r] != 0 ==> wn(h, t, h.le@[r])) && (h.le@[l] != 0 ==> wn(h, t, h.le@[l])) })
{
    let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y];
    lem_edge(h, t, e);
    assert(!anc(h, t, e.0, y)) by { if anc(h, t, e.0, y) { lem_side(h, t, e, y); } }
    assert(cs(h, y)); assert(bn(h, y)); if l != 0 { assert(wn(h, t, l)); assert(bn(h, l)); } if r != 0 { assert(wn(h, t, r)); assert(bn(h, r)); }
    assert(!anc(h, t, e.0, l)) by { if anc(h, t, e.0, l) { lem_side(h, t, e, l); } }
    assert(!anc(h, t, e.0, r)) by { if anc(h, t, e.0, r) { lem_side(h, t, e, r); } }
    let rl = h.le@[r]; let ll = h.le@[l];
    if rl != 0 { assert(wn(h, t, rl)); assert(!anc(h, t, e.0, rl)) by { if anc(h, t, e.0, rl) { lem_side(h, t, e, rl); } } assert(cs(h, rl)); }
    if ll != 0 { assert(wn(h, t, ll)); assert(!anc(h, t, e.0, ll)) by { if anc(h, t, e.0, ll) { lem_side(h, t, e, ll); } } assert(cs(h, ll)); }
}
// the nodes below e other than n, its children and (inner) grandchildren keep their children and colours
pub open spec fn tcm(h: H, n: int, m: int) -> bool { m == n || m == h.le@[n] || m == h.ri@[n] || m == h.le@[h.ri@[n]] }
pub proof fn lem_dn_ml(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, !spc(h, get(h, e)), ({ let l = h.le@[get(h, e)]; l != 0 && !red(h, l) && !red(h, h.le@[l]) })
    ensures okmv(h, get(h, e)), ({ let y = get(h, e); let z = mvl(h, y).1; let f0 = put(mvl(h, y).0, e, z); let f = setmr(f0, z, z == y); al(mvl(h, y).0, e.0) && 0 <= e.1 <= 2
        && nxt(h, f, t, e, (z, 1)) && eb(f, t, (z, 1)) >= idx(h, y) && ea(f, t, (z, 1)) == ea(h, t, e) && !spc(f, get(f, (z, 1))) })
{
    let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; let rl = h.le@[r]; let z = mvl(h, y).1; let f0 = put(mvl(h, y).0, e, z); let f = setmr(f0, z, z == y);
    lem_dn_pre(h, t, e); lem_edge(h, t, e);
    lem_mvl_ws(h, t, e, y); lem_mvl_loc(h, t, e, y); lem_ab(h, f0, t, e, y, z);
    assert(wn(f0, t, z));
    assert forall|m: int| own(f0, m) == t && !anc(f0, t, e.0, m) && m != z implies #[trigger] cs(f0, m) by {
        assert(wn(h, t, m)); assert(!anc(h, t, e.0, m)); assert(cs(h, m));
    }
    lem_push(f0, t, e, z, 1, z == y, 0);
    assert forall|m: int| own(h, m) == t && !(ea(h, t, e) <= idx(h, m) < eb(h, t, e)) implies #[trigger] f.pa@[m] == h.pa@[m] && lo(f, m) == lo(h, m) && hi(f, m) == hi(h, m) by { if m != e.0 { assert(outs(h, f0, m)); } else { assert(own(h, t) == 0); } }
}
pub proof fn lem_dn_mr(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, !spc(h, get(h, e)), !red(h, h.le@[get(h, e)]), ({ let r = h.ri@[get(h, e)]; r != 0 && !red(h, h.le@[r]) })
    ensures okmv(h, get(h, e)), ({ let y = get(h, e); let z = mvr(h, y).1; let f0 = put(mvr(h, y).0, e, z); let f = setmr(f0, z, z == y); al(mvr(h, y).0, e.0) && 0 <= e.1 <= 2
        && nxt(h, f, t, e, (z, 2)) && ea(f, t, (z, 2)) == idx(h, z) + 1 && idx(h, z) <= idx(h, y) && eb(f, t, (z, 2)) == eb(h, t, e) && (if z == y { !spc(f, get(f, (z, 2))) } else { spc(f, y) && get(f, (z, 2)) == y }) })
{
    let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; let z = mvr(h, y).1; let f0 = put(mvr(h, y).0, e, z); let f = setmr(f0, z, z == y);
    lem_dn_pre(h, t, e); lem_edge(h, t, e);
    lem_mvr_ws(h, t, e, y); lem_mvr_loc(h, t, e, y); lem_ab(h, f0, t, e, y, z);
    assert(wn(f0, t, z));
    assert forall|m: int| own(f0, m) == t && !anc(f0, t, e.0, m) && m != z && m != (if z == y { 0 } else { y }) implies #[trigger] cs(f0, m) by {
        assert(wn(h, t, m)); assert(!anc(h, t, e.0, m)); assert(cs(h, m));
    }
    lem_push(f0, t, e, z, 2, z == y, if z == y { 0 } else { y });
    assert forall|m: int| own(h, m) == t && !(ea(h, t, e) <= idx(h, m) < eb(h, t, e)) implies #[trigger] f.pa@[m] == h.pa@[m] && lo(f, m) == lo(h, m) && hi(f, m) == hi(h, m) by { if m != e.0 { assert(outs(h, f0, m)); } else { assert(own(h, t) == 0); } }
}
pub proof fn lem_dn_rr(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, red(h, h.le@[get(h, e)])
    ensures okfx(h, get(h, e)), ({ let y = get(h, e); let z = h.le@[y]; let f0 = put(rotr(h, y), e, z); let f = setmr(f0, z, true); al(rotr(h, y), e.0) && 0 <= e.1 <= 2
        && nxt(h, f, t, e, (z, 2)) && ea(f, t, (z, 2)) == idx(h, z) + 1 && idx(h, z) < idx(h, y) && eb(f, t, (z, 2)) == eb(h, t, e) && !spc(f, y) && get(f, (z, 2)) == y && f0.ri@[z] == y && red(f0, y) })
{
    let y = get(h, e); let z = h.le@[y]; let f0 = put(rotr(h, y), e, z); let f = setmr(f0, z, true);
    lem_edge(h, t, e);
    assert(!anc(h, t, e.0, y)) by { if anc(h, t, e.0, y) { lem_side(h, t, e, y); } }
    assert(wn(h, t, z)); assert(!anc(h, t, e.0, z)) by { if anc(h, t, e.0, z) { lem_side(h, t, e, z); } }
    assert(cs(h, y)); assert(cs(h, z));
    lem_rotr_loc(h, t, e, y); lem_ab(h, f0, t, e, y, z);
    assert(wn(f0, t, z));
    assert forall|m: int| own(f0, m) == t && !anc(f0, t, e.0, m) && m != z implies #[trigger] cs(f0, m) by {
        assert(wn(h, t, m)); assert(!anc(h, t, e.0, m)); assert(cs(h, m));
    }
    lem_push(f0, t, e, z, 2, true, 0);
    assert forall|m: int| own(h, m) == t && !(ea(h, t, e) <= idx(h, m) < eb(h, t, e)) implies #[trigger] f.pa@[m] == h.pa@[m] && lo(f, m) == lo(h, m) && hi(f, m) == hi(h, m) by { if m != e.0 { assert(outs(h, f0, m)); } else { assert(own(h, t) == 0); } }
}
// ---- a leaf x at position k is taken out
pub open spec fn unl(h: H, t: int, e: (int, int), k: int) -> H {
    let x = get(h, e); let g = put(h, e, 0);
    H { ns: Ghost(|u: int| if u == t { ns(h, t).remove(k) } else { ns(h, u) }),
        own: Ghost(|m: int| if m == x { 0 } else { own(h, m) }),
        idx: Ghost(|m: int| if own(h, m) == t && idx(h, m) > k { idx(h, m) - 1 } else { idx(h, m) }),
        lo: Ghost(|m: int| if own(h, m) == t && lo(h, m) > k { lo(h, m) - 1 } else { lo(h, m) }),
        hi: Ghost(|m: int| if own(h, m) == t && hi(h, m) > k { hi(h, m) - 1 } else { hi(h, m) }), ..g }
}
// f is h without node x, which was at position k of tree t
pub open spec fn rmd(h: H, f: H, t: int, k: int, x: int) -> bool {
    &&& f.e == h.e && f.st == h.st
    &&& 0 <= k < len(h, t) && ns(h, t)[k] == x && ns(f, t) == ns(h, t).remove(k)
    &&& forall|u: int| u != t ==> #[trigger] ns(f, u) == ns(h, u)
    &&& forall|m: int| #[trigger] own(f, m) == (if m == x { 0 } else { own(h, m) })
    &&& forall|m: int| m != x ==> #[trigger] idx(f, m) == (if own(h, m) == t && idx(h, m) > k { idx(h, m) - 1 } else { idx(h, m) })
    &&& f.le@[t] == h.le@[t] && f.ri@[t] == h.ri@[t] && f.co@[t] == h.co@[t]
    &&& forall|m: int| own(h, m) != t && m != t ==> #[trigger] n1(h, f, m)
}
pub proof fn lem_rmd(a: H, b: H, c: H, d: H, t: int, k: int, x: int)
    requires frs(a, b, t), rmd(b, c, t, k, x), frs(c, d, t), own(a, x) == t, t != 0, own(a, t) == 0
    ensures rmd(a, d, t, k, x)
{
    assert forall|m: int| own(a, m) != t && m != t implies #[trigger] n1(a, d, m) by { assert(n1(a, b, m)); assert(n1(b, c, m)); assert(own(c, m) == own(b, m)); assert(n1(c, d, m)); }
    assert forall|m: int| #[trigger] own(d, m) == (if m == x { 0 } else { own(a, m) }) by { assert(own(c, m) == own(d, m)); }
    assert forall|m: int| m != x implies #[trigger] idx(d, m) == (if own(a, m) == t && idx(a, m) > k { idx(a, m) - 1 } else { idx(a, m) }) by { assert(idx(c, m) == idx(d, m)); assert(own(b, m) == own(a, m)); }
    assert forall|u: int| u != t implies #[trigger] ns(d, u) == ns(a, u) by { assert(ns(c, u) == ns(b, u)); }
}
pub proof fn lem_unl(h: H, t: int, e: (int, int), k: int)
    requires ws(h, t), eok(h, t, e), ab(h, t, e), lower(h, t, e, 0), get(h, e) != 0, h.le@[get(h, e)] == 0, h.ri@[get(h, e)] == 0, red(h, get(h, e)) || e.0 == t, k == ea(h, t, e)
    ensures upw(unl(h, t, e, k), t, e), rmd(h, unl(h, t, e, k), t, k, get(h, e)), idx(h, get(h, e)) == k, ea(unl(h, t, e, k), t, e) == k, eb(unl(h, t, e, k), t, e) == k, get(unl(h, t, e, k), e) == 0
{
    let x = get(h, e); let f = unl(h, t, e, k); let s = ns(h, t); let s2 = ns(f, t); let p = e.0;
    lem_edge(h, t, e); assert(wn(h, t, x)); assert(bn(h, x));
    assert(own(f, t) == 0) by { assert(own(h, t) == 0); }
    assert forall|i: int| 0 <= i < s2.len() implies own(f, #[trigger] s2[i]) == t && idx(f, s2[i]) == i by {
        if i < k { assert(s2[i] == s[i]); } else { assert(s2[i] == s[i + 1]); }
    }
    if p != t { assert(wn(h, t, p)); assert(anc(h, t, p, p)); }
    assert forall|m: int| own(f, m) == t implies #[trigger] wn(f, t, m) && bn(f, m) by {
        assert(wn(h, t, m)); assert(bn(h, m)); if idx(h, m) == k { assert(s[k] == m); }
        if idx(h, m) < k { assert(s2[idx(h, m)] == m); } else { assert(s2[idx(h, m) - 1] == m); }
    }
    let r = h.pa@[t];
    assert(wh(f, t)) by { if p == t { assert(r == x); } else { assert(f.pa@[t] == r); assert(wn(h, t, r)); assert(r != x); } }
    assert forall|m: int| own(f, m) == t && !anc(f, t, p, m) implies #[trigger] cs(f, m) by {
        assert(wn(h, t, m)); 
        assert(!anc(h, t, p, m));
        assert(cs(h, m));
    }
    assert forall|m: int| anc(f, t, p, m) implies #[trigger] wp(f, t, e, m) by {
        assert(wn(h, t, m)); assert(anc(h, t, p, m)); assert(wp(h, t, e, m)); lem_side(h, t, e, m); assert(oth(f, e, m) == oth(h, e, m)) by { if m != p { assert(s[idx(h, m)] == m); assert(s[idx(h, p)] == p); } }
        if idx(h, m) == k { assert(s[k] == m); }
    }
}
// ---- node o takes the place of y
pub open spec fn upb(f: spec_fn(int) -> bool, x: int, v: bool) -> spec_fn(int) -> bool { |m: int| if m == x { v } else { f(m) } }
pub open spec fn sub(h: H, t: int, e: (int, int), y: int, o: int) -> H {
    let l = h.le@[y]; let r = h.ri@[y];
    let p1 = h.pa@.insert(o, h.pa@[y]); let p2 = if r != 0 { p1.insert(r, o) } else { p1 }; let p3 = if l != 0 { p2.insert(l, o) } else { p2 };
    put(H { co: Ghost(h.co@.insert(o, h.co@[y])), pa: Ghost(p3), ri: Ghost(h.ri@.insert(o, r)), le: Ghost(h.le@.insert(o, l)),
        ns: Ghost(cp_ns(h, t, idx(h, y), o)), own: Ghost(up(up(h.own@, y, 0), o, t)), idx: Ghost(up(h.idx@, o, idx(h, y))), lo: Ghost(up(h.lo@, o, lo(h, y))), hi: Ghost(up(h.hi@, o, hi(h, y))),
        bh: Ghost(up(h.bh@, o, (h.bh@)(y))), mr: Ghost(upb(h.mr@, o, mr(h, y))), ..h }, e, o)
}
pub proof fn lem_sub(a: H, h: H, t: int, e: (int, int), y: int, o: int)
    requires upw(h, t, (y, 2)), own(h, y) == t, eo(h, t, e, y), get(h, e) == y, own(h, o) == 0, o != 0, o != t, o != y, h.st@[o] == 1, h.e@[o] is Live, rmd(a, h, t, idx(h, y) + 1, o), own(a, o) == t, idx(a, o) == idx(h, y) + 1, ws(a, t)
    ensures upw(sub(h, t, e, y, o), t, (o, 2)), rmd(a, sub(h, t, e, y, o), t, idx(h, y), y), idx(a, y) == idx(h, y), eo(sub(h, t, e, y, o), t, e, o)
{
    let f = sub(h, t, e, y, o); let k = idx(h, y); let s = ns(h, t); let s2 = ns(f, t); let p = e.0; let l = h.le@[y]; let r = h.ri@[y];
    lem_edge(h, t, e); assert(wn(h, t, y)); assert(bn(h, y)); if l != 0 { assert(wn(h, t, l)); } if r != 0 { assert(wn(h, t, r)); }
    if p != t { assert(wn(h, t, p)); }
    assert(own(h, t) == 0);
    assert forall|i: int| 0 <= i < s2.len() implies own(f, #[trigger] s2[i]) == t && idx(f, s2[i]) == i by {
        if i != k { assert(s2[i] == s[i]); assert(own(h, s[i]) == t); assert(s[i] != y); }
    }
    assert forall|m: int| own(f, m) == t implies #[trigger] wn(f, t, m) && bn(f, m) by {
        if m != o { assert(wn(h, t, m)); assert(bn(h, m)); assert(m != y); assert(idx(h, m) != k); assert(s2[idx(h, m)] == m); }
    }
    let q = h.pa@[t];
    assert(wh(f, t)) by { if p == t { assert(q == y); } else { assert(f.pa@[t] == q); assert(q != 0); assert(wn(h, t, q)); assert(q != y); } }
    assert forall|m: int| m != y && m != o implies anc(f, t, o, m) == anc(h, t, y, m) by { }
    assert forall|m: int| own(f, m) == t && !anc(f, t, o, m) implies #[trigger] cs(f, m) by {
        assert(m != o); assert(m != y); assert(wn(h, t, m)); assert(!anc(h, t, y, m)); assert(cs(h, m));
    }
    assert(anc(h, t, y, y)); assert(wp(h, t, (y, 2), y));
    assert forall|m: int| anc(f, t, o, m) implies #[trigger] wp(f, t, (o, 2), m) by {
        if m != o { assert(wn(h, t, m)); assert(anc(h, t, y, m)); assert(wp(h, t, (y, 2), m)); lem_side(h, t, (y, 2), m); let c = oth(h, (y, 2), m);
            assert(c != y); assert(oth(f, (o, 2), m) == c) by { assert(s[idx(h, m)] == m); assert(s[k] == y); }
            assert(h.pa@[m] != y) by { if h.pa@[m] == y { lem_nest(h, t, m, y); } }
        }
    }
    let sa = ns(a, t);
    assert(idx(a, y) == k) by { if idx(a, y) > k + 1 { assert(idx(h, y) == idx(a, y) - 1); } assert(sa.remove(k + 1)[k] == y); }
    assert(s2 =~= sa.remove(k));
    assert forall|m: int| #[trigger] own(f, m) == (if m == y { 0 } else { own(a, m) }) by { assert(own(h, m) == (if m == o { 0 } else { own(a, m) })); }
    assert forall|m: int| m != y implies #[trigger] idx(f, m) == (if own(a, m) == t && idx(a, m) > k { idx(a, m) - 1 } else { idx(a, m) }) by {
        if m != o { assert(idx(f, m) == idx(h, m)); if own(a, m) == t { assert(wn(a, t, m)); assert(sa[idx(a, m)] == m); assert(sa[k + 1] == o); } }
    }
    assert forall|m: int| own(a, m) != t && m != t implies #[trigger] n1(a, f, m) by { assert(n1(a, h, m)); assert(own(h, m) == own(a, m)); if m == l || m == r { assert(m == 0); } }
}
// ---- the loops of a removal
pub proof fn lem_leaf(h: H, t: int, e: (int, int))
    requires dnw(h, t, e), get(h, e) != 0, !spc(h, get(h, e)), h.le@[get(h, e)] == 0 || h.ri@[get(h, e)] == 0, !red(h, h.le@[get(h, e)])
    ensures h.le@[get(h, e)] == 0, h.ri@[get(h, e)] == 0, red(h, get(h, e)) || e.0 == t, lower(h, t, e, 0), ab(h, t, e), upw(h, t, e)
{
    let y = get(h, e);
    lem_edge(h, t, e); assert(bn(h, y));
    assert(!anc(h, t, e.0, y)) by { if anc(h, t, e.0, y) { lem_side(h, t, e, y); } }
    assert(cs(h, y)); let l = h.le@[y]; let r = h.ri@[y];
    if l != 0 { assert(wn(h, t, l)); assert(bn(h, l)); } if r != 0 { assert(wn(h, t, r)); assert(bn(h, r)); }
    assert forall|m: int| own(h, m) == t && !anc(h, t, e.0, m) && m != get(h, e) implies #[trigger] cs(h, m) by { assert(wn(h, t, m)); }
}
pub proof fn lem_pa(h: H, f: H, t: int, e: (int, int), n: int, z: int, m: int)
    requires loc(h, f, t, e, n, z), own(h, m) == t, e.0 == m || !(lo(h, n) <= idx(h, m) < hi(h, n)), e.0 != t || m != e.0
    ensures f.pa@[m] == h.pa@[m], lo(f, m) == lo(h, m), hi(f, m) == hi(h, m), idx(f, m) == idx(h, m), own(f, m) == t
{ if m != e.0 { assert(outs(h, f, m)); } }
// the edge above pivot, still below e
pub proof fn lem_above(h: H, t: int, e: (int, int), p: (int, int), g: (int, int))
    requires ws(h, t), eok(h, t, e), eok(h, t, p), e.0 != t, p.0 != t, p != e, ea(h, t, e) <= idx(h, p.0) < eb(h, t, e), eo(h, t, g, p.0)
    ensures g.0 != t, eok(h, t, g), g == e || ea(h, t, e) <= idx(h, g.0) < eb(h, t, e), ea(h, t, e) <= ea(h, t, g), eb(h, t, g) <= eb(h, t, e), ea(h, t, g) <= ea(h, t, p), eb(h, t, p) <= eb(h, t, g), eb(h, t, p) - ea(h, t, p) < eb(h, t, g) - ea(h, t, g),
        get(h, g) == p.0, lo(h, p.0) == ea(h, t, g), hi(h, p.0) == eb(h, t, g)
{
    lem_edge(h, t, e); lem_edge(h, t, p); let c = get(h, e); assert(c != 0); let y = p.0; assert(wn(h, t, y)); assert(wn(h, t, c)); assert(wn(h, t, e.0));
    lem_nest(h, t, c, y);
    if y != c { lem_cov_pa(h, t, y, c); assert(wn(h, t, g.0)); lem_nest(h, t, c, g.0); } else { assert(g == e); }
}
// ---- without the entry at position k
pub proof fn lem_rm_end(a: H, f: H, t: int, k: int, x: int)
    requires wf(a, t), ws(f, t), wc(f, t), rmd(a, f, t, k, x), own(a, x) == t
    ensures wf(f, t), uq(a, t) ==> uq(f, t), vals(f, t) == vals(a, t).remove(k), fr(a, f, t)
{
    let s = ns(a, t); let s2 = ns(f, t);
    assert forall|i: int| 0 <= i < len(f, t) implies #[trigger] ky(f, t, i) == ky(a, t, if i < k { i } else { i + 1 }) by { }
    assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies !klt(#[trigger] ky(f, t, j), #[trigger] ky(f, t, i)) by {
        assert(!klt(ky(a, t, if j < k { j } else { j + 1 }), ky(a, t, if i < k { i } else { i + 1 })));
    }
    if uq(a, t) { assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies klt(#[trigger] ky(f, t, i), #[trigger] ky(f, t, j)) by { assert(klt(ky(a, t, if i < k { i } else { i + 1 }), ky(a, t, if j < k { j } else { j + 1 }))); } }
    assert(wk(f, t));
    assert(vals(f, t) =~= vals(a, t).remove(k));
    assert forall|m: int| #[trigger] fn1(a, f, t, m) by { assert(own(f, m) == (if m == x { 0 } else { own(a, m) })); if own(a, m) != t && m != t { assert(n1(a, f, m)); } }
}
pub proof fn lem_frs_end(a: H, f: H, t: int)
    requires wf(a, t), ws(f, t), wc(f, t), frs(a, f, t)
    ensures wf(f, t), uq(a, t) ==> uq(f, t), vals(f, t) == vals(a, t), fr(a, f, t)
{
    assert forall|i: int| 0 <= i < len(f, t) implies #[trigger] ky(f, t, i) == ky(a, t, i) by { }
    assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies !klt(#[trigger] ky(f, t, j), #[trigger] ky(f, t, i)) by { assert(!klt(ky(a, t, j), ky(a, t, i))); }
    if uq(a, t) { assert forall|i: int, j: int| 0 <= i < j < len(f, t) implies klt(#[trigger] ky(f, t, i), #[trigger] ky(f, t, j)) by { assert(klt(ky(a, t, i), ky(a, t, j))); } }
    assert(vals(f, t) =~= vals(a, t));
    assert forall|m: int| #[trigger] fn1(a, f, t, m) by { if own(a, m) != t && m != t { assert(n1(a, f, m)); } }
}
// the start and the end of a removal
pub proof fn lem_rm_start(h: H, t: int)
    requires wf(h, t)
    ensures get(h, (t, 0)) != 0 ==> dnw(h, t, (t, 0)), get(h, (t, 0)) == 0 ==> upw(h, t, (t, 0)) && len(h, t) == 0, eok(h, t, (t, 0))
{
    assert(own(h, t) == 0); let e = (t, 0int); let y = get(h, e);
    assert forall|m: int| own(h, m) == t && !anc(h, t, e.0, m) implies #[trigger] cs(h, m) by { }
    if y != 0 { lem_edge(h, t, e); assert(cs(h, y)); }
}
pub proof fn lem_rm_top(h: H, t: int, e: (int, int))
    requires upw(h, t, e), e.0 == t
    ensures h.pa@[t] == 0 ==> wc(h, t), h.pa@[t] != 0 ==> ws(blacken(h, t), t) && wc(blacken(h, t), t) && frs(h, blacken(h, t), t) && al(h, h.pa@[t])
{
    assert(own(h, t) == 0); let y = h.pa@[t]; assert(get(h, e) == y);
    assert forall|m: int| own(h, m) == t && m != y implies #[trigger] cs(h, m) by { }
    if y != 0 { lem_edge(h, t, e); lem_blacken(h, t); } else { assert forall|m: int| own(h, m) == t implies #[trigger] cs(h, m) by { assert(wn(h, t, m)); } }
}
pub open spec fn rmf(dm: bool, hb: H, hs: H, t: int, e: (int, int), z: int, o: int) -> H { if dm { sub(hs, t, e, z, o) } else { unl(hb, t, e, ea(hb, t, e)) } }
// one step of the way down: the tree and the edge that is reached
pub open spec fn dn(h: H, e: (int, int), lt: bool) -> (H, (int, int)) {
    let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y];
    if lt {
        if l == 0 { (h, (y, 1)) } else if !red(h, l) && !red(h, h.le@[l]) { let m = mvl(h, y); (setmr(put(m.0, e, m.1), m.1, m.1 == y), (m.1, 1)) } else { (setmr(h, y, red(h, l)), (y, 1)) }
    } else {
        if red(h, l) { (setmr(put(rotr(h, y), e, l), l, true), (l, 2)) } else if r == 0 { (h, (y, 2)) } else if !red(h, r) && !red(h, h.le@[r]) { let m = mvr(h, y); (setmr(put(m.0, e, m.1), m.1, m.1 == y), (m.1, 2)) } else { (setmr(h, y, red(h, r)), (y, 2)) }
    }
}
pub open spec fn nkey(h: H, n: int) -> Val { kval(ev(h.e@, n)) }
pub open spec fn rmi(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int) -> bool {
    let y = get(h, e);
    &&& frs(h0, h, t) && eok(h, t, e) && al(h, e.0) && 0 <= e.1 <= 2 && ea(h, t, e) <= eb(h, t, e)
    &&& y != 0 ==> dnw(h, t, e) && (spc(h, y) ==> !klt(kk, nkey(h0, y))) && (hask(h0, t, kk) ==> ea(h, t, e) <= j < eb(h, t, e))
    &&& y == 0 ==> upw(h, t, pe) && !hask(h0, t, kk)
    &&& hask(h0, t, kk) ==> 0 <= j < len(h0, t) && keq(ky(h0, t, j), kk)
}
pub open spec fn nj(h0: H, t: int, y: int, kk: Val, j: int) -> int { if keq(ky(h0, t, idx(h0, y)), kk) { idx(h0, y) } else { j } }
pub proof fn lem_rm_node(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int)
    requires wf(h0, t), rmi(h0, h, t, e, pe, kk, j), get(h, e) != 0
    ensures ({ let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; al(h, y) && h.pa@[y] == e.0 && (l != 0 ==> al(h, l) && (h.le@[l] != 0 ==> al(h, h.le@[l]))) && (r != 0 ==> al(h, r) && (h.le@[r] != 0 ==> al(h, h.le@[r])))
        && el(h.e@, y) && own(h0, y) == t && (red(h, l) ==> okfx(h, y) && el(h.e@, l) && own(h0, l) == t && get(put(rotr(h, y), e, l), e) == l && rotr(h, y).ri@[l] == y && put(rotr(h, y), e, l).ri@[l] == y && red(put(rotr(h, y), e, l), y) && al(rotr(h, y), e.0) && !klt(nkey(h0, y), nkey(h0, l))
              && put(rotr(h, y), e, l).st == h.st && put(rotr(h, y), e, l).e == h.e) })
{
    broadcast use ax_klt_asym;
    lem_edge(h, t, e); let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; 
    if l != 0 { assert(wn(h, t, l)); if h.le@[l] != 0 { assert(wn(h, t, h.le@[l])); } } if r != 0 { assert(wn(h, t, r)); if h.le@[r] != 0 { assert(wn(h, t, h.le@[r])); } }
    if red(h, l) { lem_dn_rr(h, t, e); lem_desc(h0, t, l, nkey(h0, y)); lem_desc(h0, t, y, nkey(h0, l)); assert(wk(h0, t)); }
}
pub proof fn lem_rm_next(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int, lt: bool)
    requires wf(h0, t), rmi(h0, h, t, e, pe, kk, j), get(h, e) != 0, lt == klt(kk, nkey(h0, get(h, e))),
        !lt ==> ({ let d = dn(h, e, lt); let z = d.1.0; z == get(h, e) || red(h, h.le@[get(h, e)]) ==> !keq(kk, nkey(h0, z)) })
    ensures ({ let d = dn(h, e, lt); rmi(h0, d.0, t, d.1, e, kk, nj(h0, t, get(h, e), kk, j)) && eb(d.0, t, d.1) - ea(d.0, t, d.1) < eb(h, t, e) - ea(h, t, e) })
{
    broadcast use ax_keq, ax_klt_asym, ax_klt_neg;
    let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; let d = dn(h, e, lt); let z = d.1.0;
    lem_edge(h, t, e); lem_desc(h0, t, y, kk); assert(own(h0, y) == t);
    if l != 0 { assert(wn(h, t, l)); } if r != 0 { assert(wn(h, t, r)); }
    if lt {
        if l == 0 { lem_leaf(h, t, e); } else if !red(h, l) && !red(h, h.le@[l]) { lem_dn_ml(h, t, e); } else { lem_dn_left(h, t, e); }
    } else {
        if red(h, l) { lem_dn_rr(h, t, e); assert(own(h0, l) == t); lem_desc(h0, t, l, kk); lem_rm_node(h0, h, t, e, pe, kk, j); } else if r == 0 { lem_leaf(h, t, e); } else if !red(h, r) && !red(h, h.le@[r]) { lem_dn_mr(h, t, e); } else { lem_dn_right(h, t, e); }
    }
    let f = d.0; let g = d.1;
    lem_edge(f, t, g); if get(f, g) != 0 { lem_frs(h0, h, f, t); }
}
// the entry is in a node with two children: the smallest on its right side takes its place
pub proof fn lem_rm_dm(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int)
    requires wf(h0, t), rmi(h0, h, t, e, pe, kk, j), get(h, e) != 0, ({ let z = dn(h, e, false).1.0; z == get(h, e) || red(h, h.le@[get(h, e)]) }), red(h, h.le@[get(h, e)]) || h.ri@[get(h, e)] != 0
    ensures ({ let d = dn(h, e, false); let f = d.0; let z = d.1.0; d.1.1 == 2 && dnw(f, t, d.1) && z != t && get(f, d.1) != 0 && !spc(f, get(f, d.1)) && frs(h0, f, t) && get(f, e) == z && own(f, z) == t && eo(f, t, e, z) && ws(f, t) })
{
    let y = get(h, e); let l = h.le@[y]; let r = h.ri@[y]; let d = dn(h, e, false);
    lem_edge(h, t, e); if l != 0 { assert(wn(h, t, l)); } if r != 0 { assert(wn(h, t, r)); }
    if red(h, l) { lem_dn_rr(h, t, e); lem_rotr_loc(h, t, e, y); } else if !red(h, r) && !red(h, h.le@[r]) { lem_dn_pre(h, t, e); lem_dn_mr(h, t, e); lem_mvr_loc(h, t, e, y); } else { lem_dn_right(h, t, e); }
    lem_frs(h0, h, d.0, t);
}
pub proof fn lem_rm_sub(h0: H, h: H, hs: H, t: int, e: (int, int), z: int, o: int)
    requires wf(h0, t), frs(h0, h, t), ws(h, t), eo(h, t, e, z), own(h, z) == t, get(h, e) == z, upw(hs, t, (z, 2)), rmd(h, hs, t, idx(h, z) + 1, o), own(h, o) == t, o != 0, hs.pa@[z] == h.pa@[z]
    ensures ({ let f = sub(hs, t, e, z, o); let l = hs.le@[z]; let r = hs.ri@[z]; upw(f, t, (o, 2)) && rmd(h0, f, t, idx(h0, z), z) && own(h0, z) == t && al(hs, o) && al(hs, z) && al(hs, e.0) && o != z && o != t && o != e.0 && l != t && r != t && l != o && r != o && get(hs, e) == z && hs.pa@[z] == e.0 && z != 0
        && (l != 0 ==> al(hs, l)) && (r != 0 ==> al(hs, r)) && 0 <= e.1 <= 2 && (e.0 == t ==> e.1 == 0) && (e.0 != t ==> e.1 != 0) })
{
    assert(own(hs, t) == 0); assert(own(h, t) == 0);
    lem_edge(h, t, (z, 2)); lem_edge(h, t, e); assert(wn(h, t, o)); assert(ns(h, t)[idx(h, z)] == z); assert(ns(h, t)[idx(h, o)] == o);
    assert(idx(h, o) == idx(h, z) + 1);
    assert(own(hs, z) == t); assert(wn(hs, t, z)); let l = hs.le@[z]; let r = hs.ri@[z]; if l != 0 { assert(wn(hs, t, l)); } if r != 0 { assert(wn(hs, t, r)); }
    assert(idx(hs, z) == idx(h, z));
    if e.0 != t { let p = e.0; assert(own(hs, p) == own(h, p)) by { assert(own(hs, p) == (if p == o { 0 } else { own(h, p) })); assert(wn(h, t, p)); if p == o { } } assert(wn(hs, t, p)); assert(wn(h, t, p)); assert(idx(hs, p) == (if idx(h, p) > idx(h, z) + 1 { idx(h, p) - 1 } else { idx(h, p) })); assert(ns(h, t)[idx(h, p)] == p); }
    assert(eo(hs, t, e, z));
    lem_rmd(h0, h, hs, hs, t, idx(h, z) + 1, o);
    lem_sub(h0, hs, t, e, z, o);
}
pub proof fn lem_rm_leaf(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int)
    requires wf(h0, t), rmi(h0, h, t, e, pe, kk, j), get(h, e) != 0, !red(h, h.le@[get(h, e)]), h.ri@[get(h, e)] == 0, !klt(kk, nkey(h0, get(h, e))), keq(kk, nkey(h0, get(h, e)))
    ensures ({ let f = unl(h, t, e, ea(h, t, e)); let y = get(h, e); upw(f, t, e) && rmd(h0, f, t, idx(h0, y), y) && own(h0, y) == t })
{
    let y = get(h, e); let k = ea(h, t, e);
    assert(!spc(h, y)); lem_leaf(h, t, e); lem_unl(h, t, e, k); lem_edge(h, t, e); lem_rmd(h0, h, unl(h, t, e, k), unl(h, t, e, k), t, k, y);
}
// ... and back
pub open spec fn rmu(h0: H, h: H, t: int, e: (int, int), kk: Val, x: int) -> bool {
    &&& upw(h, t, e)
    &&& x == 0 ==> frs(h0, h, t) && !hask(h0, t, kk)
    &&& x != 0 ==> own(h0, x) == t && rmd(h0, h, t, idx(h0, x), x) && keq(nkey(h0, x), kk)
}
pub proof fn lem_rm_up0(h0: H, h: H, t: int, e: (int, int), kk: Val, x: int)
    requires rmu(h0, h, t, e, kk, x), e.0 != t
    ensures own(h, e.0) == t, t != 0, ws(h, t), e.0 != 0, al(h, e.0)
{ lem_edge(h, t, e); }
pub proof fn lem_rm_up(h0: H, h: H, t: int, e: (int, int), g: (int, int), kk: Val, x: int)
    requires wf(h0, t), rmu(h0, h, t, e, kk, x), e.0 != t, eo(h, t, g, e.0), get(h, g) == e.0
    ensures okfx(h, e.0), al(h, e.0), al(h, g.0), al(fx(h, e.0).0, g.0), 0 <= g.1 <= 2, h.pa@[e.0] == g.0,
        ({ let f = put(fx(h, e.0).0, g, fx(h, e.0).1); rmu(h0, f, t, g, kk, x) && len(f, t) - (eb(f, t, g) - ea(f, t, g)) < len(h, t) - (eb(h, t, e) - ea(h, t, e)) && len(f, t) - (eb(f, t, g) - ea(f, t, g)) >= 0 })
{
    let f = put(fx(h, e.0).0, g, fx(h, e.0).1); let p = e.0;
    lem_edge(h, t, e); assert(wn(h, t, p)); assert(eok(h, t, g)); lem_edge(h, t, g);
    lem_up(h, t, e, g);
    lem_edge(f, t, g);
    assert(lo(h, p) <= ea(h, t, e) <= eb(h, t, e) <= hi(h, p));
    if g.0 != t { lem_pa(h, f, t, g, p, fx(h, p).1, g.0); }
    if x == 0 { lem_frs(h0, h, f, t); } else { assert(own(h0, t) == 0); lem_rmd(h0, h0, h, f, t, idx(h0, x), x); }
}
pub proof fn lem_rm_fin(h0: H, h: H, t: int, e: (int, int), kk: Val, x: int)
    requires wf(h0, t), rmu(h0, h, t, e, kk, x), e.0 == t
    ensures h.pa@[t] != 0 ==> al(h, h.pa@[t]), al(h, t),
        ({ let f = if h.pa@[t] != 0 { blacken(h, t) } else { h }; wf(f, t) && (uq(h0, t) ==> uq(f, t)) && fr(h0, f, t) && (x != 0) == hask(h0, t, kk)
            && (x == 0 ==> frs(h0, f, t) && vals(f, t) == vals(h0, t))
            && (x != 0 ==> own(h0, x) == t && keq(nkey(h0, x), kk) && rmd(h0, f, t, idx(h0, x), x) && vals(f, t) == vals(h0, t).remove(idx(h0, x))) })
{
    let f = if h.pa@[t] != 0 { blacken(h, t) } else { h };
    lem_rm_top(h, t, e);
    if x == 0 { lem_frs(h0, h, f, t); lem_frs_end(h0, f, t); }
    else { assert(own(h0, t) == 0); lem_rmd(h0, h0, h, f, t, idx(h0, x), x); lem_rm_end(h0, f, t, idx(h0, x), x); lem_desc(h0, t, x, kk); assert(keq(ky(h0, t, idx(h0, x)), kk)); }
}
pub proof fn lem_rm_begin(h: H, t: int, kk: Val)
    requires wf(h, t)
    ensures rmi(h, h, t, (t, 0), (t, 0), kk, choose|i: int| 0 <= i < len(h, t) && keq(#[trigger] ky(h, t, i), kk))
{
    broadcast use ax_keq;
    lem_rm_start(h, t); lem_edge(h, t, (t, 0)); assert(own(h, t) == 0); if h.pa@[t] != 0 { assert(cs(h, h.pa@[t])); }
}
pub proof fn lem_rm_ml(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int)
    requires wf(h0, t), rmi(h0, h, t, e, pe, kk, j), get(h, e) != 0, klt(kk, nkey(h0, get(h, e))), ({ let l = h.le@[get(h, e)]; l != 0 && !red(h, l) && !red(h, h.le@[l]) })
    ensures ({ let y = get(h, e); let m = mvl(h, y); okmv(h, y) && m.1 != 0 && m.0.st == h.st && m.0.e == h.e && al(h, m.1) && get(put(m.0, e, m.1), e) == m.1 })
{ lem_dn_ml(h, t, e); lem_edge(h, t, e); }
pub proof fn lem_rm_mr(h0: H, h: H, t: int, e: (int, int), pe: (int, int), kk: Val, j: int)
    requires wf(h0, t), rmi(h0, h, t, e, pe, kk, j), get(h, e) != 0, !klt(kk, nkey(h0, get(h, e))), !red(h, h.le@[get(h, e)]), ({ let r = h.ri@[get(h, e)]; r != 0 && !red(h, r) && !red(h, h.le@[r]) })
    ensures ({ let y = get(h, e); let m = mvr(h, y); okmv(h, y) && m.1 != 0 && m.0.st == h.st && m.0.e == h.e && al(h, m.1) && el(h.e@, m.1) && get(put(m.0, e, m.1), e) == m.1 && put(m.0, e, m.1).st == h.st && put(m.0, e, m.1).e == h.e })
{ lem_dn_pre(h, t, e); lem_dn_mr(h, t, e); lem_edge(h, t, e); }
// b is a without the entry at position k of tree t: its node is gone, nothing else happened
pub open spec fn era(a: H, b: H, t: int, k: int) -> bool {
    let x = ns(a, t)[k];
    &&& 0 <= k < len(a, t) && ns(b, t) == ns(a, t).remove(k) && vals(b, t) == vals(a, t).remove(k)
    &&& (forall|m: int| #[trigger] b.st@[m] == (if m == x { 0 } else { a.st@[m] })) && (forall|m: int| #[trigger] b.e@[m] == (if m == x { Slot::No } else { a.e@[m] }))
    &&& (forall|m: int| #[trigger] own(b, m) == (if m == x { 0 } else { own(a, m) }))
    &&& fr(a, b, t)
}
pub proof fn lem_era(a: H, b: H, c: H, t: int, x: int)
    requires wf(a, t), wf(b, t), own(a, x) == t, rmd(a, b, t, idx(a, x), x), fr(a, b, t), vals(b, t) == vals(a, t).remove(idx(a, x)),
        c == (H { e: c.e, st: c.st, ..b }), forall|m: int| #[trigger] c.e@[m] == (if m == x { Slot::No } else { b.e@[m] }), forall|m: int| #[trigger] c.st@[m] == (if m == x { 0 } else { b.st@[m] })
    ensures wf(c, t), uq(b, t) ==> uq(c, t), era(a, c, t, idx(a, x))
{
    let d = H { e: c.e, ..b };
    assert(own(b, x) == 0); assert(own(b, t) == 0);
    assert forall|m: int| own(b, m) == t implies #[trigger] d.e@[m] == b.e@[m] by { assert(m != x); }
    assert(wn(a, t, x)); assert(wh(b, t)); assert(t != 0); assert(x != t);
    lem_e(b, d, t);
    assert forall|m: int| #![trigger own(c, m)] #![trigger wn(c, t, m)] own(c, m) == t implies wn(c, t, m) && bn(c, m) by { assert(own(d, m) == t); assert(ws(d, t)); assert(wn(d, t, m)); assert(bn(d, m)); assert(m != x) by { assert(own(b, x) == 0); }; assert(c.st@[m] == b.st@[m]); assert(wn(c, t, m)); assert(bn(c, m)); }
    assert forall|i: int| 0 <= i < len(c, t) implies own(c, #[trigger] ns(c, t)[i]) == t && idx(c, ns(c, t)[i]) == i by { assert(own(d, ns(d, t)[i]) == t); }
    assert forall|m: int| own(c, m) == t implies #[trigger] cs(c, m) by { assert(cs(d, m)); }
    assert forall|i: int, j: int| 0 <= i < j < len(c, t) implies !klt(#[trigger] ky(c, t, j), #[trigger] ky(c, t, i)) by { assert(!klt(ky(d, t, j), ky(d, t, i))); }
    if uq(d, t) { assert forall|i: int, j: int| 0 <= i < j < len(c, t) implies klt(#[trigger] ky(c, t, i), #[trigger] ky(c, t, j)) by { assert(klt(ky(d, t, i), ky(d, t, j))); } }
    assert(wh(d, t)); assert(wh(c, t)); assert(ws(c, t)); assert(wc(c, t)); assert(wk(c, t));
    assert(vals(c, t) =~= vals(d, t));
    assert forall|m: int| #[trigger] fn1(a, c, t, m) by { assert(fn1(a, b, t, m)); assert(own(c, m) == own(b, m)); }
    assert forall|u: int| u != t implies #[trigger] ns(c, u) == ns(a, u) by { assert(ns(b, u) == ns(a, u)); }
    assert forall|m: int| #[trigger] own(c, m) == (if m == x { 0 } else { own(a, m) }) by { assert(own(b, m) == (if m == x { 0 } else { own(a, m) })); }
}
