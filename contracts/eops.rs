// ---- operations of the element type, and where its objects live
#[verifier::external_body]
pub fn e_eq(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == veq(ev(h.e@, a@), ev(h.e@, b@)) { unimplemented!() }
#[verifier::external_body]
pub fn e_lt(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == vlt(ev(h.e@, a@), ev(h.e@, b@)) { unimplemented!() }
pub fn e_assign(h: &mut H, a: Ptr, b: Ptr) requires el(old(h).e@, a@), el(old(h).e@, b@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, old(h).e@[b@])), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, h.e@[b@])), ..*h }; }
pub fn e_ctor_copy(h: &mut H, a: Ptr, b: Ptr) requires eraw(old(h).e@, a@), el(old(h).e@, b@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, old(h).e@[b@])), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, h.e@[b@])), ..*h }; }
pub fn e_ctor_default(h: &mut H, a: Ptr) requires eraw(old(h).e@, a@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::Live(vdef()))), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::Live(vdef()))), ..*h }; }
pub fn e_dtor(h: &mut H, a: Ptr) requires el(old(h).e@, a@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::Raw)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::Raw)), ..*h }; }
// a local variable or temporary of the element type: storage of its own, gone at the end of its scope
#[verifier::external_body]
pub fn e_stack(h: &mut H) -> (r: Ptr) ensures r@ != 0, old(h).e@[r@] is No, *final(h) == (H { e: Ghost(old(h).e@.insert(r@, Slot::Raw)), ..*old(h) }) { unimplemented!() }
pub fn e_stack_drop(h: &mut H, a: Ptr) requires el(old(h).e@, a@)
    ensures *final(h) == (H { e: Ghost(old(h).e@.insert(a@, Slot::No)), ..*old(h) }) { *h = H { e: Ghost(h.e@.insert(a@, Slot::No)), ..*h }; }
// predicates given by the user
pub uninterp spec fn pp(a: Val) -> bool;
pub uninterp spec fn bp(a: Val, b: Val) -> bool;
pub uninterp spec fn cp(a: Val, b: Val) -> bool;
#[verifier::external_body]
pub fn p_call(h: &H, a: Ptr) -> (r: bool) requires el(h.e@, a@) ensures r == pp(ev(h.e@, a@)) { unimplemented!() }
#[verifier::external_body]
pub fn bp_call(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == bp(ev(h.e@, a@), ev(h.e@, b@)) { unimplemented!() }
#[verifier::external_body]
pub fn cp_call(h: &H, a: Ptr, b: Ptr) -> (r: bool) requires el(h.e@, a@), el(h.e@, b@) ensures r == cp(ev(h.e@, a@), ev(h.e@, b@)) { unimplemented!() }
// < and the comparison functors are strict weak orders
#[verifier::external_body]
pub broadcast proof fn ax_vlt_irr(a: Val) ensures !#[trigger] vlt(a, a) {}
#[verifier::external_body]
pub broadcast proof fn ax_vlt_asym(a: Val, b: Val) ensures #[trigger] vlt(a, b) ==> !vlt(b, a) {}
#[verifier::external_body]
pub broadcast proof fn ax_vlt_neg(a: Val, b: Val, c: Val) ensures #[trigger] vlt(a, b) ==> #[trigger] vlt(a, c) || vlt(c, b) {}
#[verifier::external_body]
pub broadcast proof fn ax_cp_irr(a: Val) ensures !#[trigger] cp(a, a) {}
#[verifier::external_body]
pub broadcast proof fn ax_cp_asym(a: Val, b: Val) ensures #[trigger] cp(a, b) ==> !cp(b, a) {}
#[verifier::external_body]
pub broadcast proof fn ax_cp_neg(a: Val, b: Val, c: Val) ensures #[trigger] cp(a, b) ==> #[trigger] cp(a, c) || cp(c, b) {}
