//! Contracts of lower-layer operations, used by the engine in place of calls to the real ones
//! (`--replace`) when a higher-layer function is verified modularly. Each contract is itself the
//! subject of the checks in `ubi.rs`. They are written in terms of mathematical integers.
use crate::sym::*;
use crate::util::*;
use hmath::UBigInt;

/// the canonical magnitude of a non-negative integer (case split on its limb count)
pub fn of_z(z: Z) -> UBigInt {
    let mut n = 1u64;
    while !forkb(z.lt(Z::pow2(32 * n))) { n += 1; }
    UBigInt::from_raw(z.split(n))
}
#[no_mangle] pub fn sum_add(a: &UBigInt, b: &UBigInt) -> UBigInt { of_z(zu(a) + zu(b)) }
#[no_mangle] pub fn sum_sub(a: &UBigInt, b: &UBigInt) -> UBigInt { let (x, y) = (zu(a), zu(b)); if forkb(x.lt(y)) { panic!("subtraction underflow") } of_z(x - y) }
#[no_mangle] pub fn sum_mul(a: &UBigInt, b: &UBigInt) -> UBigInt { of_z(zu(a) * zu(b)) }
#[no_mangle] pub fn sum_mul_u32(a: &UBigInt, b: u32) -> UBigInt { of_z(zu(a) * Z::u(b as u128)) }
#[no_mangle] pub fn sum_sub_u32(a: &UBigInt, b: u32) -> UBigInt { let (x, y) = (zu(a), Z::u(b as u128)); if forkb(x.lt(y)) { panic!("subtraction underflow") } of_z(x - y) }
#[no_mangle] pub fn sum_div_u32(a: &UBigInt, b: u32) -> UBigInt { if forkb(b == 0) { panic!("division by zero") } of_z(zu(a).fdiv(Z::u(b as u128))) }
#[no_mangle] pub fn sum_geq(a: &UBigInt, b: &UBigInt) -> bool { !zu(a).lt(zu(b)) }
#[no_mangle] pub fn sum_leq(a: &UBigInt, b: &UBigInt) -> bool { !zu(b).lt(zu(a)) }
#[no_mangle] pub fn sum_lt(a: &UBigInt, b: &UBigInt) -> bool { zu(a).lt(zu(b)) }
#[no_mangle] pub fn sum_gt(a: &UBigInt, b: &UBigInt) -> bool { zu(b).lt(zu(a)) }

fn fmod(x: Z, y: Z) -> Z { if forkb(y.eq(Z::of(0))) { panic!("division by zero") } x - x.fdiv(y) * y }
#[no_mangle] pub fn sum_div(a: &UBigInt, b: &UBigInt) -> UBigInt { let y = zu(b); if forkb(y.eq(Z::of(0))) { panic!("division by zero") } of_z(zu(a).fdiv(y)) }
#[no_mangle] pub fn sum_rem(a: &UBigInt, b: &UBigInt) -> UBigInt { of_z(fmod(zu(a), zu(b))) }
#[no_mangle] pub fn sum_rem_u32(a: &UBigInt, b: u32) -> UBigInt { of_z(fmod(zu(a), Z::u(b as u128))) }
#[no_mangle] pub fn sum_add_u32(a: &UBigInt, b: u32) -> UBigInt { of_z(zu(a) + Z::u(b as u128)) }
#[no_mangle] pub fn sum_div_mut(a: &mut UBigInt, b: &UBigInt) { *a = sum_div(a, b); }
#[no_mangle] pub fn sum_rem_mut(a: &mut UBigInt, b: &UBigInt) { *a = sum_rem(a, b); }
#[no_mangle] pub fn sum_rem_u32_mut(a: &mut UBigInt, b: u32) { *a = sum_rem_u32(a, b); }
#[no_mangle] pub fn sum_add_u32_mut(a: &mut UBigInt, b: u32) { *a = sum_add_u32(a, b); }

/// dividend of the outermost division, the measure that recursive calls must decrease
pub static mut DIV_OUTER: u64 = 0;
/// recursive division: the induction hypothesis for a strictly smaller dividend
#[no_mangle] pub fn sum_div_rec(a: &UBigInt, b: &UBigInt) -> UBigInt {
    let (x, y) = (zu(a), zu(b));
    check(x.lt(Z(unsafe { DIV_OUTER })), 9001);
    if forkb(y.eq(Z::of(0))) { panic!("division by zero") }
    of_z(x.fdiv(y))
}
#[no_mangle] pub fn sum_sub_mut(a: &mut UBigInt, b: &UBigInt) { *a = sum_sub(a, b); }
#[no_mangle] pub fn sum_add_mut(a: &mut UBigInt, b: &UBigInt) { *a = sum_add(a, b); }
#[no_mangle] pub fn sum_mul_mut(a: &mut UBigInt, b: &UBigInt) { *a = sum_mul(a, b); }
#[no_mangle] pub fn sum_mul_u32_mut(a: &mut UBigInt, b: u32) { *a = sum_mul_u32(a, b); }
#[no_mangle] pub fn sum_sub_u32_mut(a: &mut UBigInt, b: u32) { *a = sum_sub_u32(a, b); }
#[no_mangle] pub fn sum_div_u32_mut(a: &mut UBigInt, b: u32) { *a = sum_div_u32(a, b); }

/// error messages are not part of any property here: no text is built for them
#[no_mangle] pub fn sum_sci(_a: &UBigInt, _n: usize) -> String { String::new() }
#[no_mangle] pub fn sum_fmt(_a: &hmath::BigInt, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
