// ---- common prelude: meaning of pointers, machine arithmetic and element objects --------------------------------
// Everything marked external_body below is an assumption about the C++ language or about the element type; the
// check counts and lists them on every run.
#[derive(Copy, Clone)]
pub struct Ptr { pub a: Ghost<int> }
impl View for Ptr { type V = int; open spec fn view(&self) -> int { self.a@ } }

#[verifier::external_body]
pub fn peq(a: Ptr, b: Ptr) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn plt(a: Ptr, b: Ptr) -> (r: bool) ensures r == (a@ < b@) { unimplemented!() }
#[verifier::external_body]
pub fn is_null(a: Ptr) -> (r: bool) ensures r == (a@ == 0) { unimplemented!() }
pub fn pnull() -> (r: Ptr) ensures r@ == 0 { Ptr { a: Ghost(0int) } }
pub fn padd(a: Ptr, Ghost(k): Ghost<int>) -> (r: Ptr) ensures r@ == a@ + k { Ptr { a: Ghost(a@ + k) } }
pub fn poff(a: Ptr, k: u64) -> (r: Ptr) ensures r@ == a@ + k { Ptr { a: Ghost(a@ + k as int) } }
// pointer difference: defined only if the number of elements between fits
#[verifier::external_body]
pub fn pdiff(a: Ptr, b: Ptr) -> (r: i64) requires -0x8000_0000_0000_0000 <= a@ - b@ <= 0x7fff_ffff_ffff_ffff ensures r == a@ - b@ { unimplemented!() }
pub fn arb_ptr() -> (r: Ptr) { Ptr { a: Ghost(0int) } }
pub fn arb_u64() -> (r: u64) { 0 }
pub fn arb_i64() -> (r: i64) { 0 }
pub fn arb_u32() -> (r: u32) { 0 }
pub fn arb_i32() -> (r: i32) { 0 }
pub fn arb_i8() -> (r: i8) { 0 }
pub fn arb_u8() -> (r: u8) { 0 }
pub fn arb_bool() -> (r: bool) { false }
pub fn unreached<T>() -> (r: T) requires false { loop invariant false decreases 0int { } }

// unsigned arithmetic wraps
pub open spec fn wrap64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn wrap32(x: int) -> int { x % 0x1_0000_0000 }
pub fn wadd_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a + b <= u64::MAX { a + b } else { a + b - 0x1_0000_0000_0000_0000 }) { a.wrapping_add(b) }
pub fn wsub_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { a - b + 0x1_0000_0000_0000_0000 }) { a.wrapping_sub(b) }
pub fn wadd_u32(a: u32, b: u32) -> (r: u32) ensures r == (if a + b <= u32::MAX { a + b } else { a + b - 0x1_0000_0000 }) { a.wrapping_add(b) }
pub fn wsub_u32(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { a - b + 0x1_0000_0000 }) { a.wrapping_sub(b) }
pub fn wmul_u64(a: u64, b: u64) -> (r: u64) ensures a * b <= u64::MAX ==> r == a * b { a.wrapping_mul(b) }
pub fn wneg_u64(a: u64) -> (r: u64) ensures r == (if a == 0 { 0int } else { 0x1_0000_0000_0000_0000 - a }) { 0u64.wrapping_sub(a) }
pub fn neg_i64(a: i64) -> (r: i64) requires a > i64::MIN ensures r == -a { -a }
pub fn neg_i32(a: i32) -> (r: i32) requires a > i32::MIN ensures r == -a { -a }
// C++ signed division truncates towards zero
pub fn sdiv_i32(a: i32, b: i32) -> (r: i32) requires b > 0 ensures a >= 0 ==> r == a / b, a < 0 ==> r == -((-a) / (b as int))
{
    if a >= 0 { ((a as u32) / (b as u32)) as i32 } else {
        let n: u32 = if a == i32::MIN { 0x8000_0000u32 } else { (-a) as u32 };
        let q = n / (b as u32);
        proof { assert(q <= n) by(nonlinear_arith) requires q == n / (b as u32), b > 0; }
        if q == 0x8000_0000u32 { i32::MIN } else { -(q as i32) }
    }
}
pub fn sdiv_i64(a: i64, b: i64) -> (r: i64) requires b > 0 ensures a >= 0 ==> r == a / b, a < 0 ==> r == -((-a) / (b as int))
{
    if a >= 0 { ((a as u64) / (b as u64)) as i64 } else {
        let n: u64 = if a == i64::MIN { 0x8000_0000_0000_0000u64 } else { (-a) as u64 };
        let q = n / (b as u64);
        proof { assert(q <= n) by(nonlinear_arith) requires q == n / (b as u64), b > 0; }
        if q == 0x8000_0000_0000_0000u64 { i64::MIN } else { -(q as i64) }
    }
}
// conversions: the value modulo 2^n (out of range to a signed type: any value)
#[verifier::truncate]
pub fn cvt_i64_i32(a: i64) -> (r: i32) ensures i32::MIN <= a <= i32::MAX ==> r == a { a as i32 }
#[verifier::truncate]
pub fn cvt_u64_i32(a: u64) -> (r: i32) ensures a <= i32::MAX ==> r == a { a as i32 }
pub fn cvt_u64_u32(a: u64) -> (r: u32) ensures r == wrap32(a as int) { (a % 0x1_0000_0000u64) as u32 }
pub fn cvt_i64_u64(a: i64) -> (r: u64) ensures r == (if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 }) { if a >= 0 { a as u64 } else { u64::MAX - ((-(a + 1)) as u64) } }
pub fn cvt_i32_u64(a: i32) -> (r: u64) ensures r == (if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 }) { if a >= 0 { a as u64 } else { u64::MAX - ((-(a + 1)) as u64) } }
#[verifier::truncate]
pub fn cvt_u64_i64(a: u64) -> (r: i64) ensures a <= i64::MAX ==> r == a { a as i64 }
pub fn cvt_i32_u32(a: i32) -> (r: u32) ensures r == (if a >= 0 { a as int } else { a + 0x1_0000_0000 }) { if a >= 0 { a as u32 } else { u32::MAX - ((-(a + 1)) as u32) } }
#[verifier::truncate]
pub fn cvt_u32_i32(a: u32) -> (r: i32) ensures a <= i32::MAX ==> r == a { a as i32 }

// ---- abstract element values
#[verifier::external_body]
pub struct Val { v: u64 }
pub enum Slot { No, Raw, Live(Val) }
pub uninterp spec fn veq(a: Val, b: Val) -> bool;      // operator==
pub uninterp spec fn vlt(a: Val, b: Val) -> bool;      // operator<
pub uninterp spec fn vdef() -> Val;                    // value of E()
