// ---- heap of the bitset family: the words of the bitsets and the characters of strings
pub struct H {
    pub w: Ghost<IMap<int, u64>>,        // words
    pub ok: Ghost<IMap<int, bool>>,      // words that belong to a bitset
    pub ob: Ghost<IMap<int, int>>,       // ghost: the bitset a word belongs to
    pub c: Ghost<IMap<int, i8>>,         // characters
    pub cok: Ghost<IMap<int, bool>>,     // characters that may be read
}
// template arguments: N of the bitset, M of the other one
pub uninterp spec fn NN() -> nat;
pub uninterp spec fn MM() -> nat;
#[verifier::external_body]
pub broadcast proof fn ax_nn() ensures 1 <= #[trigger] NN() < 0x1_0000_0000 {}
#[verifier::external_body]
pub broadcast proof fn ax_mm() ensures 0 <= #[trigger] MM() < 0x1_0000_0000 {}
pub open spec fn nw(n: int) -> int { (n + 63) / 64 }
#[verifier::external_body]
pub fn nn() -> (r: u64) ensures r == NN() { unimplemented!() }
#[verifier::external_body]
pub fn mm() -> (r: u64) ensures r == MM() { unimplemented!() }
// sizeof(bits_)
#[verifier::external_body]
pub fn sz_n() -> (r: u64) ensures r == 8 * nw(NN() as int) { unimplemented!() }
#[verifier::external_body]
pub fn sz_m() -> (r: u64) ensures r == 8 * nw(MM() as int) { unimplemented!() }
#[verifier::external_body]
pub fn ld_w_u64(h: &H, p: Ptr) -> (r: u64) requires h.ok@[p@] ensures r == h.w@[p@] { unimplemented!() }
pub fn st_w_u64(h: &mut H, p: Ptr, v: u64) requires old(h).ok@[p@] ensures *final(h) == (H { w: Ghost(old(h).w@.insert(p@, v)), ..*old(h) }) { *h = H { w: Ghost(h.w@.insert(p@, v)), ..*h }; }
#[verifier::external_body]
pub fn ld_w_i8(h: &H, p: Ptr) -> (r: i8) requires h.cok@[p@] ensures r == h.c@[p@] { unimplemented!() }
pub fn shl_u64(a: u64, k: u64) -> (r: u64) requires k < 64 ensures r == a << k { a << k }
pub fn shr_u64(a: u64, k: u64) -> (r: u64) requires k < 64 ensures r == a >> k { a >> k }
// __builtin_popcountl
pub fn popcount64(a: u64) -> (r: i32) ensures r == pcnt(a, 64), 0 <= r <= 64
{
    let mut r: i32 = 0;
    let mut k: u64 = 0;
    while k < 64
        invariant 0 <= k <= 64, r == pcnt(a, k as int), 0 <= r <= k
        decreases 64 - k
    {
        assert(pcnt(a, k as int + 1) == pcnt(a, k as int) + (if wbit(a, ((k as int + 1) - 1) as u64) { 1int } else { 0 }));
        assert((((k as int) + 1) - 1) as u64 == k);
        if (a >> k) & 1u64 == 1u64 { r = r + 1; }
        k = k + 1;
    }
    r
}
// a local variable or result of type bitset<N>: storage of its own
pub open spec fn fresh(a: H, b: H, r: int, n: int) -> bool {
    &&& forall|p: int| r <= p < r + nw(n) ==> !#[trigger] a.ok@[p]
    &&& forall|p: int| #[trigger] b.ok@[p] == (r <= p < r + nw(n) || a.ok@[p])
    &&& forall|p: int| r <= p < r + nw(n) ==> #[trigger] b.ob@[p] == r
    &&& forall|p: int| a.ok@[p] ==> #[trigger] b.ob@[p] == a.ob@[p]
    &&& forall|p: int| a.ok@[p] ==> #[trigger] b.w@[p] == a.w@[p]
    &&& b.c@ == a.c@ && b.cok@ == a.cok@
}
#[verifier::external_body]
pub fn bs_new_n(h: &mut H) -> (r: Ptr) ensures fresh(*old(h), *final(h), r@, NN() as int) { unimplemented!() }
#[verifier::external_body]
pub fn bs_new_m(h: &mut H) -> (r: Ptr) ensures fresh(*old(h), *final(h), r@, MM() as int) { unimplemented!() }
pub fn bs_drop_n(h: &mut H, a: Ptr) requires wfb(*old(h), a@, NN() as int)
    ensures dropped(*old(h), *final(h), a@, NN() as int) { *h = H { ok: Ghost(IMap::total(|p: int| h.ok@[p] && !(a@ <= p < a@ + nw(NN() as int)))), ..*h }; }
pub fn bs_drop_m(h: &mut H, a: Ptr) requires wfb(*old(h), a@, MM() as int)
    ensures dropped(*old(h), *final(h), a@, MM() as int) { *h = H { ok: Ghost(IMap::total(|p: int| h.ok@[p] && !(a@ <= p < a@ + nw(MM() as int)))), ..*h }; }

// ---- a bitset of n bits at address b
pub open spec fn wfb(h: H, b: int, n: int) -> bool {
    &&& forall|p: int| b <= p < b + nw(n) ==> #[trigger] h.ok@[p]
    &&& forall|p: int| b <= p < b + nw(n) ==> #[trigger] h.ob@[p] == b
}
pub open spec fn wbit(w: u64, k: u64) -> bool { (w >> k) & 1 == 1 }
pub open spec fn bit(h: H, b: int, j: int) -> bool { wbit(h.w@[b + j / 64], (j % 64) as u64) }
// only words of [b, b+nw(n)) changed
pub open spec fn fr(x: H, y: H, b: int, n: int) -> bool {
    &&& y == (H { w: y.w, ..x })
    &&& forall|p: int| !(b <= p < b + nw(n)) ==> #[trigger] y.w@[p] == x.w@[p]
}
pub proof fn disj(h: H, v: int, n: int, w: int, m: int)
    requires wfb(h, v, n), wfb(h, w, m), v != w || m == 0, n > 0, m >= 0
    ensures m > 0 ==> v + nw(n) <= w || w + nw(m) <= v
{
    if m > 0 && v <= w < v + nw(n) { assert(h.ob@[w] == v); assert(h.ob@[w] == w); }
    if m > 0 && w <= v < w + nw(m) { assert(h.ob@[v] == v); assert(h.ob@[v] == w); }
}
// ---- words and their bits
pub broadcast proof fn b_or(a: u64, b: u64, k: u64) requires k < 64 ensures #[trigger] wbit(a | b, k) == (wbit(a, k) || wbit(b, k))
{ assert(k < 64 ==> (((a | b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 || (b >> k) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn b_and(a: u64, b: u64, k: u64) requires k < 64 ensures #[trigger] wbit(a & b, k) == (wbit(a, k) && wbit(b, k))
{ assert(k < 64 ==> (((a & b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 && (b >> k) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn b_xor(a: u64, b: u64, k: u64) requires k < 64 ensures #[trigger] wbit(a ^ b, k) == (wbit(a, k) != wbit(b, k))
{ assert(k < 64 ==> (((a ^ b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) != ((b >> k) & 1 == 1))) by (bit_vector); }
pub broadcast proof fn b_not(a: u64, k: u64) requires k < 64 ensures #[trigger] wbit(!a, k) == !wbit(a, k)
{ assert(k < 64 ==> (((!a) >> k) & 1 == 1) == !((a >> k) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn b_one(i: u64, k: u64) requires k < 64, i < 64 ensures #[trigger] wbit(1u64 << i, k) == (k == i)
{ assert(k < 64 && i < 64 ==> (((1u64 << i) >> k) & 1 == 1) == (k == i)) by (bit_vector); }
pub broadcast proof fn b_zero(k: u64) requires k < 64 ensures !#[trigger] wbit(0, k)
{ assert(k < 64 ==> !((0u64 >> k) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn b_zsh(i: u64, k: u64) requires k < 64, i < 64 ensures !#[trigger] wbit(0u64 << i, k)
{ assert(k < 64 && i < 64 ==> !(((0u64 << i) >> k) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn b_max(k: u64) requires k < 64 ensures #[trigger] wbit(0xffff_ffff_ffff_ffff, k)
{ assert(k < 64 ==> ((0xffff_ffff_ffff_ffffu64 >> k) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn x_test(w: u64, i: u64) requires i < 64 ensures (#[trigger] (w & (1u64 << i)) != 0) == wbit(w, i)
{ assert(i < 64 ==> ((w & (1u64 << i)) != 0) == ((w >> i) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn x_msk(w: u64, m: u64, i: u64) requires i < 64, m <= 1 ensures (#[trigger] (w & (m << i)) != 0) == (m == 1 && wbit(w, i))
{ assert(i < 64 && m <= 1 ==> ((w & (m << i)) != 0) == (m == 1 && (w >> i) & 1 == 1)) by (bit_vector); }
pub proof fn b_low(r: u64) requires 0 < r < 64 ensures forall|k: u64| k < 64 ==> #[trigger] wbit(((1u64 << r) - 1) as u64, k) == (k < r), (1u64 << r) >= 1
{
    assert(0 < r && r < 64 ==> (1u64 << r) >= 1) by (bit_vector);
    let one = 1u64 << r;
    assert forall|k: u64| k < 64 implies #[trigger] wbit(((1u64 << r) - 1) as u64, k) == (k < r) by {
        assert(0 < r && r < 64 && k < 64 ==> ((sub(1u64 << r, 1) >> k) & 1 == 1) == (k < r)) by (bit_vector);
        assert(sub(one, 1) == ((1u64 << r) - 1) as u64);
    }
}
pub broadcast group bitlaws { b_or, b_and, b_xor, b_not, b_one, b_zero, b_zsh, b_max, x_test, x_msk }
// words with the same bits are equal
pub proof fn ext(a: u64, b: u64) requires forall|k: u64| k < 64 ==> #[trigger] wbit(a, k) == wbit(b, k) ensures a == b
{
    assert(wbit(a, 0) == wbit(b, 0));
    assert(wbit(a, 1) == wbit(b, 1));
    assert(wbit(a, 2) == wbit(b, 2));
    assert(wbit(a, 3) == wbit(b, 3));
    assert(wbit(a, 4) == wbit(b, 4));
    assert(wbit(a, 5) == wbit(b, 5));
    assert(wbit(a, 6) == wbit(b, 6));
    assert(wbit(a, 7) == wbit(b, 7));
    assert(wbit(a, 8) == wbit(b, 8));
    assert(wbit(a, 9) == wbit(b, 9));
    assert(wbit(a, 10) == wbit(b, 10));
    assert(wbit(a, 11) == wbit(b, 11));
    assert(wbit(a, 12) == wbit(b, 12));
    assert(wbit(a, 13) == wbit(b, 13));
    assert(wbit(a, 14) == wbit(b, 14));
    assert(wbit(a, 15) == wbit(b, 15));
    assert(wbit(a, 16) == wbit(b, 16));
    assert(wbit(a, 17) == wbit(b, 17));
    assert(wbit(a, 18) == wbit(b, 18));
    assert(wbit(a, 19) == wbit(b, 19));
    assert(wbit(a, 20) == wbit(b, 20));
    assert(wbit(a, 21) == wbit(b, 21));
    assert(wbit(a, 22) == wbit(b, 22));
    assert(wbit(a, 23) == wbit(b, 23));
    assert(wbit(a, 24) == wbit(b, 24));
    assert(wbit(a, 25) == wbit(b, 25));
    assert(wbit(a, 26) == wbit(b, 26));
    assert(wbit(a, 27) == wbit(b, 27));
    assert(wbit(a, 28) == wbit(b, 28));
    assert(wbit(a, 29) == wbit(b, 29));
    assert(wbit(a, 30) == wbit(b, 30));
    assert(wbit(a, 31) == wbit(b, 31));
    assert(wbit(a, 32) == wbit(b, 32));
    assert(wbit(a, 33) == wbit(b, 33));
    assert(wbit(a, 34) == wbit(b, 34));
    assert(wbit(a, 35) == wbit(b, 35));
    assert(wbit(a, 36) == wbit(b, 36));
    assert(wbit(a, 37) == wbit(b, 37));
    assert(wbit(a, 38) == wbit(b, 38));
    assert(wbit(a, 39) == wbit(b, 39));
    assert(wbit(a, 40) == wbit(b, 40));
    assert(wbit(a, 41) == wbit(b, 41));
    assert(wbit(a, 42) == wbit(b, 42));
    assert(wbit(a, 43) == wbit(b, 43));
    assert(wbit(a, 44) == wbit(b, 44));
    assert(wbit(a, 45) == wbit(b, 45));
    assert(wbit(a, 46) == wbit(b, 46));
    assert(wbit(a, 47) == wbit(b, 47));
    assert(wbit(a, 48) == wbit(b, 48));
    assert(wbit(a, 49) == wbit(b, 49));
    assert(wbit(a, 50) == wbit(b, 50));
    assert(wbit(a, 51) == wbit(b, 51));
    assert(wbit(a, 52) == wbit(b, 52));
    assert(wbit(a, 53) == wbit(b, 53));
    assert(wbit(a, 54) == wbit(b, 54));
    assert(wbit(a, 55) == wbit(b, 55));
    assert(wbit(a, 56) == wbit(b, 56));
    assert(wbit(a, 57) == wbit(b, 57));
    assert(wbit(a, 58) == wbit(b, 58));
    assert(wbit(a, 59) == wbit(b, 59));
    assert(wbit(a, 60) == wbit(b, 60));
    assert(wbit(a, 61) == wbit(b, 61));
    assert(wbit(a, 62) == wbit(b, 62));
    assert(wbit(a, 63) == wbit(b, 63));
    assert(((((a >> 0u64) & 1 == 1) == ((b >> 0u64) & 1 == 1)) && (((a >> 1u64) & 1 == 1) == ((b >> 1u64) & 1 == 1)) && (((a >> 2u64) & 1 == 1) == ((b >> 2u64) & 1 == 1)) && (((a >> 3u64) & 1 == 1) == ((b >> 3u64) & 1 == 1)) && (((a >> 4u64) & 1 == 1) == ((b >> 4u64) & 1 == 1)) && (((a >> 5u64) & 1 == 1) == ((b >> 5u64) & 1 == 1)) && (((a >> 6u64) & 1 == 1) == ((b >> 6u64) & 1 == 1)) && (((a >> 7u64) & 1 == 1) == ((b >> 7u64) & 1 == 1)) && (((a >> 8u64) & 1 == 1) == ((b >> 8u64) & 1 == 1)) && (((a >> 9u64) & 1 == 1) == ((b >> 9u64) & 1 == 1)) && (((a >> 10u64) & 1 == 1) == ((b >> 10u64) & 1 == 1)) && (((a >> 11u64) & 1 == 1) == ((b >> 11u64) & 1 == 1)) && (((a >> 12u64) & 1 == 1) == ((b >> 12u64) & 1 == 1)) && (((a >> 13u64) & 1 == 1) == ((b >> 13u64) & 1 == 1)) && (((a >> 14u64) & 1 == 1) == ((b >> 14u64) & 1 == 1)) && (((a >> 15u64) & 1 == 1) == ((b >> 15u64) & 1 == 1)) && (((a >> 16u64) & 1 == 1) == ((b >> 16u64) & 1 == 1)) && (((a >> 17u64) & 1 == 1) == ((b >> 17u64) & 1 == 1)) && (((a >> 18u64) & 1 == 1) == ((b >> 18u64) & 1 == 1)) && (((a >> 19u64) & 1 == 1) == ((b >> 19u64) & 1 == 1)) && (((a >> 20u64) & 1 == 1) == ((b >> 20u64) & 1 == 1)) && (((a >> 21u64) & 1 == 1) == ((b >> 21u64) & 1 == 1)) && (((a >> 22u64) & 1 == 1) == ((b >> 22u64) & 1 == 1)) && (((a >> 23u64) & 1 == 1) == ((b >> 23u64) & 1 == 1)) && (((a >> 24u64) & 1 == 1) == ((b >> 24u64) & 1 == 1)) && (((a >> 25u64) & 1 == 1) == ((b >> 25u64) & 1 == 1)) && (((a >> 26u64) & 1 == 1) == ((b >> 26u64) & 1 == 1)) && (((a >> 27u64) & 1 == 1) == ((b >> 27u64) & 1 == 1)) && (((a >> 28u64) & 1 == 1) == ((b >> 28u64) & 1 == 1)) && (((a >> 29u64) & 1 == 1) == ((b >> 29u64) & 1 == 1)) && (((a >> 30u64) & 1 == 1) == ((b >> 30u64) & 1 == 1)) && (((a >> 31u64) & 1 == 1) == ((b >> 31u64) & 1 == 1)) && (((a >> 32u64) & 1 == 1) == ((b >> 32u64) & 1 == 1)) && (((a >> 33u64) & 1 == 1) == ((b >> 33u64) & 1 == 1)) && (((a >> 34u64) & 1 == 1) == ((b >> 34u64) & 1 == 1)) && (((a >> 35u64) & 1 == 1) == ((b >> 35u64) & 1 == 1)) && (((a >> 36u64) & 1 == 1) == ((b >> 36u64) & 1 == 1)) && (((a >> 37u64) & 1 == 1) == ((b >> 37u64) & 1 == 1)) && (((a >> 38u64) & 1 == 1) == ((b >> 38u64) & 1 == 1)) && (((a >> 39u64) & 1 == 1) == ((b >> 39u64) & 1 == 1)) && (((a >> 40u64) & 1 == 1) == ((b >> 40u64) & 1 == 1)) && (((a >> 41u64) & 1 == 1) == ((b >> 41u64) & 1 == 1)) && (((a >> 42u64) & 1 == 1) == ((b >> 42u64) & 1 == 1)) && (((a >> 43u64) & 1 == 1) == ((b >> 43u64) & 1 == 1)) && (((a >> 44u64) & 1 == 1) == ((b >> 44u64) & 1 == 1)) && (((a >> 45u64) & 1 == 1) == ((b >> 45u64) & 1 == 1)) && (((a >> 46u64) & 1 == 1) == ((b >> 46u64) & 1 == 1)) && (((a >> 47u64) & 1 == 1) == ((b >> 47u64) & 1 == 1)) && (((a >> 48u64) & 1 == 1) == ((b >> 48u64) & 1 == 1)) && (((a >> 49u64) & 1 == 1) == ((b >> 49u64) & 1 == 1)) && (((a >> 50u64) & 1 == 1) == ((b >> 50u64) & 1 == 1)) && (((a >> 51u64) & 1 == 1) == ((b >> 51u64) & 1 == 1)) && (((a >> 52u64) & 1 == 1) == ((b >> 52u64) & 1 == 1)) && (((a >> 53u64) & 1 == 1) == ((b >> 53u64) & 1 == 1)) && (((a >> 54u64) & 1 == 1) == ((b >> 54u64) & 1 == 1)) && (((a >> 55u64) & 1 == 1) == ((b >> 55u64) & 1 == 1)) && (((a >> 56u64) & 1 == 1) == ((b >> 56u64) & 1 == 1)) && (((a >> 57u64) & 1 == 1) == ((b >> 57u64) & 1 == 1)) && (((a >> 58u64) & 1 == 1) == ((b >> 58u64) & 1 == 1)) && (((a >> 59u64) & 1 == 1) == ((b >> 59u64) & 1 == 1)) && (((a >> 60u64) & 1 == 1) == ((b >> 60u64) & 1 == 1)) && (((a >> 61u64) & 1 == 1) == ((b >> 61u64) & 1 == 1)) && (((a >> 62u64) & 1 == 1) == ((b >> 62u64) & 1 == 1)) && (((a >> 63u64) & 1 == 1) == ((b >> 63u64) & 1 == 1))) ==> a == b) by (bit_vector);
}
// a word that is not zero has a bit set; one that is not all ones has a bit cleared
pub proof fn some_set(a: u64) requires a != 0 ensures exists|k: u64| k < 64 && #[trigger] wbit(a, k)
{ broadcast use bitlaws; if !(exists|k: u64| k < 64 && #[trigger] wbit(a, k)) { ext(a, 0); } }
// ---- number of bits set
pub open spec fn pcnt(w: u64, k: int) -> int decreases k { if k <= 0 { 0 } else { pcnt(w, k - 1) + (if wbit(w, (k - 1) as u64) { 1int } else { 0 }) } }
pub open spec fn cnt(h: H, b: int, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(h, b, n - 1) + (if bit(h, b, n - 1) { 1int } else { 0 }) } }
pub proof fn cnt_word(h: H, b: int, i: int, k: int) requires 0 <= k <= 64, i >= 0 ensures cnt(h, b, 64 * i + k) == cnt(h, b, 64 * i) + pcnt(h.w@[b + i], k) decreases k
{ if k > 0 { cnt_word(h, b, i, k - 1); assert((64 * i + k - 1) / 64 == i); assert((64 * i + k - 1) % 64 == k - 1); } }
pub proof fn pcnt_mask(w: u64, m: u64, r: int, k: int) requires 0 <= k <= 64, 0 <= r <= 64, forall|x: u64| x < 64 ==> #[trigger] wbit(m, x) == (x < r) ensures pcnt(w & m, k) == pcnt(w, if k < r { k } else { r }) decreases k
{ broadcast use bitlaws; if k > 0 { pcnt_mask(w, m, r, k - 1); } }
pub proof fn pcnt_bound(w: u64, k: int) requires 0 <= k ensures 0 <= pcnt(w, k) <= k decreases k { if k > 0 { pcnt_bound(w, k - 1); } }
pub proof fn cnt_bound(h: H, b: int, k: int) requires 0 <= k ensures 0 <= cnt(h, b, k) <= k decreases k { if k > 0 { cnt_bound(h, b, k - 1); } }
// bits of the last word that are used
pub open spec fn lastm(m: u64, n: int) -> bool { forall|k: u64| k < 64 ==> #[trigger] wbit(m, k) == (64 * (nw(n) - 1) + k < n) }
pub open spec fn lmask(n: int) -> u64 { if n % 64 == 0 { 0xffff_ffff_ffff_ffff } else { ((1u64 << ((n % 64) as u64)) - 1) as u64 } }
pub proof fn last_ok() ensures lastm(lmask(NN() as int), NN() as int)
{ broadcast use ax_nn, bitlaws; if NN() % 64 != 0 { b_low((NN() % 64) as u64); } }
// ---- strings
pub open spec fn zo(c: i8, z: i8, o: i8) -> bool { c == z || c == o }
// length of the prefix of 0s and 1s
pub open spec fn plen(h: H, b: int, i: int, lim: int, z: i8, o: i8) -> int decreases lim - i
{ if i < lim && zo(h.c@[b + i], z, o) { plen(h, b, i + 1, lim, z, o) } else { i } }
pub proof fn count_step(h: H, b: int, i: int)
    requires 0 <= i < nw(NN() as int)
    ensures
        64 * (i + 1) <= NN() ==> cnt(h, b, 64 * (i + 1)) == cnt(h, b, 64 * i) + pcnt(h.w@[b + i], 64),
        i == nw(NN() as int) - 1 ==> forall|m: u64| #[trigger] lastm(m, NN() as int) ==> cnt(h, b, NN() as int) == cnt(h, b, 64 * i) + pcnt(h.w@[b + i] & m, 64),
{
    broadcast use ax_nn;
    cnt_word(h, b, i, 64);
    if i == nw(NN() as int) - 1 {
        let r = NN() - 64 * i;
        cnt_word(h, b, i, r);
        assert forall|m: u64| #[trigger] lastm(m, NN() as int) implies cnt(h, b, NN() as int) == cnt(h, b, 64 * i) + pcnt(h.w@[b + i] & m, 64) by { pcnt_mask(h.w@[b + i], m, r, 64); }
    }
}
// words x(0..) and y(0..) agree in the first n bits
pub proof fn differ(x: spec_fn(int) -> u64, y: spec_fn(int) -> u64, n: int, m: u64)
    requires n >= 1, lastm(m, n)
    ensures (forall|j: int| 0 <= j < n ==> #[trigger] wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64))
        == ((forall|i: int| 0 <= i < nw(n) - 1 ==> #[trigger] x(i) == y(i)) && (x(nw(n) - 1) & m) == (y(nw(n) - 1) & m))
{
    broadcast use bitlaws;
    let l = nw(n) - 1;
    if forall|j: int| 0 <= j < n ==> #[trigger] wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64) {
        assert forall|i: int| 0 <= i < l implies #[trigger] x(i) == y(i) by {
            assert forall|k: u64| k < 64 implies #[trigger] wbit(x(i), k) == wbit(y(i), k) by { let j = 64 * i + k; assert(j / 64 == i && j % 64 == k); assert(wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64)); }
            ext(x(i), y(i));
        }
        assert forall|k: u64| k < 64 implies #[trigger] wbit(x(l) & m, k) == wbit(y(l) & m, k) by {
            let j = 64 * l + k; assert(j / 64 == l && j % 64 == k);
            if j < n { assert(wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64)); }
        }
        ext(x(l) & m, y(l) & m);
    }
    if (forall|i: int| 0 <= i < l ==> #[trigger] x(i) == y(i)) && (x(l) & m) == (y(l) & m) {
        assert forall|j: int| 0 <= j < n implies #[trigger] wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64) by {
            let i = j / 64; let k = (j % 64) as u64;
            if i < l { assert(x(i) == y(i)); }
            else { assert(i == l); assert(wbit(x(l) & m, k) == wbit(y(l) & m, k)); assert(wbit(m, k)); }
        }
    }
}
pub open spec fn lowz(h: H, b: int, l: int, v: u64) -> bool { forall|i: int| 0 <= i < l ==> #[trigger] h.w@[b + i] == v }
pub proof fn q_const(h: H, b: int, v: u64, val: bool)
    requires forall|k: u64| k < 64 ==> #[trigger] wbit(v, k) == val
    ensures forall|m: u64| #[trigger] lastm(m, NN() as int) ==> ((forall|j: int| 0 <= j < NN() ==> #[trigger] bit(h, b, j) == val) == (lowz(h, b, nw(NN() as int) - 1, v) && (h.w@[b + nw(NN() as int) - 1] & m) == (v & m)))
{
    broadcast use ax_nn;
    assert forall|m: u64| #[trigger] lastm(m, NN() as int) implies ((forall|j: int| 0 <= j < NN() ==> #[trigger] bit(h, b, j) == val) == (lowz(h, b, nw(NN() as int) - 1, v) && (h.w@[b + nw(NN() as int) - 1] & m) == (v & m))) by {
        let x = |i: int| h.w@[b + i]; let y = |i: int| v;
        differ(x, y, NN() as int, m);
        let l = nw(NN() as int) - 1;
        if forall|j: int| 0 <= j < NN() ==> #[trigger] bit(h, b, j) == val {
            assert forall|j: int| 0 <= j < NN() implies #[trigger] wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64) by { assert(bit(h, b, j) == val); }
            assert forall|i: int| 0 <= i < l implies #[trigger] h.w@[b + i] == v by { assert(x(i) == y(i)); }
        }
        if lowz(h, b, l, v) && (h.w@[b + l] & m) == (v & m) {
            assert forall|i: int| 0 <= i < l implies #[trigger] x(i) == y(i) by { assert(h.w@[b + i] == v); }
            assert forall|j: int| 0 <= j < NN() implies #[trigger] bit(h, b, j) == val by { assert(wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64)); }
        }
    }
}
pub proof fn q_eq(h: H, b: int, c: int)
    ensures forall|m: u64| #[trigger] lastm(m, NN() as int) ==> ((forall|j: int| 0 <= j < NN() ==> #[trigger] bit(h, b, j) == bit(h, c, j)) == ((forall|i: int| 0 <= i < nw(NN() as int) - 1 ==> #[trigger] h.w@[b + i] == h.w@[c + i]) && ((h.w@[b + nw(NN() as int) - 1] ^ h.w@[c + nw(NN() as int) - 1]) & m) == 0))
{
    broadcast use ax_nn;
    assert forall|m: u64| #[trigger] lastm(m, NN() as int) implies ((forall|j: int| 0 <= j < NN() ==> #[trigger] bit(h, b, j) == bit(h, c, j)) == ((forall|i: int| 0 <= i < nw(NN() as int) - 1 ==> #[trigger] h.w@[b + i] == h.w@[c + i]) && ((h.w@[b + nw(NN() as int) - 1] ^ h.w@[c + nw(NN() as int) - 1]) & m) == 0)) by {
        let x = |i: int| h.w@[b + i]; let y = |i: int| h.w@[c + i];
        differ(x, y, NN() as int, m);
        let l = nw(NN() as int) - 1;
        let xl = h.w@[b + l]; let yl = h.w@[c + l];
        assert((((xl ^ yl) & m) == 0) == ((xl & m) == (yl & m))) by (bit_vector);
        if forall|j: int| 0 <= j < NN() ==> #[trigger] bit(h, b, j) == bit(h, c, j) {
            assert forall|j: int| 0 <= j < NN() implies #[trigger] wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64) by { assert(bit(h, b, j) == bit(h, c, j)); }
            assert forall|i: int| 0 <= i < l implies #[trigger] h.w@[b + i] == h.w@[c + i] by { assert(x(i) == y(i)); }
        }
        if (forall|i: int| 0 <= i < l ==> #[trigger] h.w@[b + i] == h.w@[c + i]) && ((xl ^ yl) & m) == 0 {
            assert forall|i: int| 0 <= i < l implies #[trigger] x(i) == y(i) by { assert(h.w@[b + i] == h.w@[c + i]); }
            assert forall|j: int| 0 <= j < NN() implies #[trigger] bit(h, b, j) == bit(h, c, j) by { assert(wbit(x(j / 64), (j % 64) as u64) == wbit(y(j / 64), (j % 64) as u64)); }
        }
    }
}
pub broadcast proof fn z_and(m: u64) ensures #[trigger] (0u64 & m) == 0 { assert((0u64 & m) == 0) by (bit_vector); }
pub broadcast proof fn m_and(m: u64) ensures #[trigger] (0xffff_ffff_ffff_ffffu64 & m) == m { assert((0xffff_ffff_ffff_ffffu64 & m) == m) by (bit_vector); }

// the word that is and-ed with the last word of the shorter bitset
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn fresh_wf(a: H, b: H, r: int, n: int, v: int, m: int)
    requires fresh(a, b, r, n), wfb(a, v, m), n >= 1, m >= 1
    ensures wfb(b, v, m), wfb(b, r, n), v + nw(m) <= r || r + nw(n) <= v, forall|p: int| v <= p < v + nw(m) ==> #[trigger] b.w@[p] == a.w@[p]
{
    assert forall|p: int| v <= p < v + nw(m) implies #[trigger] a.ok@[p] && !(r <= p < r + nw(n)) by { assert(a.ok@[p]); }
    assert forall|p: int| v <= p < v + nw(m) implies #[trigger] b.ok@[p] by { assert(a.ok@[p]); }
    assert forall|p: int| v <= p < v + nw(m) implies #[trigger] b.ob@[p] == v by { assert(a.ob@[p] == v); assert(a.ok@[p]); }
    assert forall|p: int| v <= p < v + nw(m) implies #[trigger] b.w@[p] == a.w@[p] by { assert(a.ok@[p]); }
    if v <= r < v + nw(m) { assert(a.ok@[r]); }
    if r <= v < r + nw(n) { assert(a.ok@[v]); }
}
// only words of [b, b+nw(n)) changed; temporaries came and went
pub open spec fn frt(x: H, y: H, b: int, n: int) -> bool {
    &&& forall|p: int| #[trigger] y.ok@[p] == x.ok@[p]
    &&& forall|p: int| x.ok@[p] ==> #[trigger] y.ob@[p] == x.ob@[p]
    &&& forall|p: int| x.ok@[p] && !(b <= p < b + nw(n)) ==> #[trigger] y.w@[p] == x.w@[p]
    &&& y.c@ == x.c@ && y.cok@ == x.cok@
}
pub broadcast proof fn w_fresh(a: H, b: H, r: int, n: int, v: int, m: int)
    requires #[trigger] fresh(a, b, r, n), #[trigger] wfb(a, v, m), n >= 1, m >= 1
    ensures wfb(b, v, m), wfb(b, r, n), v + nw(m) <= r || r + nw(n) <= v, forall|p: int| v <= p < v + nw(m) ==> #[trigger] b.w@[p] == a.w@[p]
{ fresh_wf(a, b, r, n, v, m); }
pub broadcast proof fn w_fr(a: H, b: H, r: int, n: int, v: int, m: int)
    requires #[trigger] fr(a, b, r, n), #[trigger] wfb(a, v, m)
    ensures wfb(b, v, m)
{
    assert forall|p: int| v <= p < v + nw(m) implies #[trigger] b.ok@[p] by { assert(a.ok@[p]); }
    assert forall|p: int| v <= p < v + nw(m) implies #[trigger] b.ob@[p] == v by { assert(a.ob@[p] == v); }
}
pub open spec fn dropped(x: H, y: H, r: int, n: int) -> bool {
    y == (H { ok: y.ok, ..x }) && forall|p: int| #[trigger] y.ok@[p] == (x.ok@[p] && !(r <= p < r + nw(n)))
}
pub broadcast proof fn fresh_fr(a: H, b: H, c: H, r: int, n: int)
    requires #[trigger] fresh(a, b, r, n), #[trigger] fr(b, c, r, n) ensures fresh(a, c, r, n) {}
pub broadcast proof fn fresh_drop(a: H, b: H, c: H, d: H, o: int, r: int, n: int, m: int)
    requires #[trigger] fresh(a, b, o, n), #[trigger] fresh(b, c, r, m), #[trigger] dropped(c, d, o, n) ensures fresh(a, d, r, m)
{
    assert forall|p: int| r <= p < r + nw(m) implies !#[trigger] a.ok@[p] by { assert(!b.ok@[p]); }
    assert forall|p: int| #[trigger] d.ok@[p] == (r <= p < r + nw(m) || a.ok@[p]) by { if o <= p < o + nw(n) { assert(!a.ok@[p]); assert(b.ok@[p]); } }
    assert forall|p: int| a.ok@[p] implies #[trigger] d.ob@[p] == a.ob@[p] by { assert(b.ok@[p]); assert(b.ob@[p] == a.ob@[p]); }
    assert forall|p: int| a.ok@[p] implies #[trigger] d.w@[p] == a.w@[p] by { assert(b.ok@[p]); assert(b.w@[p] == a.w@[p]); }
}
pub broadcast proof fn drop_bit(a: H, b: H, r: int, n: int, v: int, j: int)
    requires #[trigger] dropped(a, b, r, n) ensures #[trigger] bit(b, v, j) == bit(a, v, j) {}
pub broadcast proof fn fresh_bit(a: H, b: H, r: int, n: int, v: int, j: int)
    requires #[trigger] fresh(a, b, r, n), a.ok@[v + j / 64] ensures #[trigger] bit(b, v, j) == bit(a, v, j) {}
pub broadcast proof fn fresh_drop2(a: H, b: H, c: H, d: H, e: H, o: int, r: int, n: int, m: int)
    requires #[trigger] fresh(a, b, r, m), #[trigger] fresh(b, c, o, n), #[trigger] fr(c, d, r, m), #[trigger] dropped(d, e, o, n) ensures fresh(a, e, r, m)
{
    assert forall|p: int| #[trigger] e.ok@[p] == (r <= p < r + nw(m) || a.ok@[p]) by { assert(c.ok@[p] == (o <= p < o + nw(n) || b.ok@[p])); if o <= p < o + nw(n) { assert(!b.ok@[p]); } }
    assert forall|p: int| r <= p < r + nw(m) implies #[trigger] e.ob@[p] == r by { assert(b.ok@[p]); assert(c.ob@[p] == b.ob@[p]); }
    assert forall|p: int| a.ok@[p] implies #[trigger] e.ob@[p] == a.ob@[p] by { assert(b.ok@[p]); assert(b.ob@[p] == a.ob@[p]); assert(c.ob@[p] == b.ob@[p]); }
    assert forall|p: int| a.ok@[p] implies #[trigger] e.w@[p] == a.w@[p] by { assert(b.ok@[p]); assert(b.w@[p] == a.w@[p]); assert(c.w@[p] == b.w@[p]); }
}
pub broadcast group frames { fresh_drop2, w_fresh, w_fr, fresh_fr, fresh_drop, drop_bit, fresh_bit }

pub proof fn plen_ge(h: H, b: int, i: int, lim: int, z: i8, o: i8) requires i <= lim ensures i <= plen(h, b, i, lim, z, o) <= lim decreases lim - i
{ if i < lim && zo(h.c@[b + i], z, o) { plen_ge(h, b, i + 1, lim, z, o); } }
pub open spec fn slen(h: H, b: int, n: int, z: i8, o: i8) -> int { plen(h, b, 0, mn(n, NN() as int), z, o) }
