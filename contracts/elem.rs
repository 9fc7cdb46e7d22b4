// ---- elements in memory: every address holds no object, raw storage or a live element
pub open spec fn el(m: IMap<int, Slot>, p: int) -> bool { m[p] is Live }
pub open spec fn ev(m: IMap<int, Slot>, p: int) -> Val { m[p]->Live_0 }
pub open spec fn eraw(m: IMap<int, Slot>, p: int) -> bool { m[p] is Raw }
// all addresses of [a,b) hold live elements
pub open spec fn live(m: IMap<int, Slot>, a: int, b: int) -> bool { forall|p: int| #![trigger el(m, p)] #![trigger m[p]] a <= p < b ==> el(m, p) }
// nothing outside of [a,b) changed
pub open spec fn same_out(m: IMap<int, Slot>, n: IMap<int, Slot>, a: int, b: int) -> bool {
    forall|p: int| #![trigger n[p]] !(a <= p < b) ==> n[p] == m[p]
}
pub open spec fn sq(m: IMap<int, Slot>, a: int, b: int) -> Seq<Val> { Seq::new((b - a) as nat, |i: int| ev(m, a + i)) }
