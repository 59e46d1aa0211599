//! Contracts for natural numbers where each is one mathematical integer of unbounded size ("lifted":
//! limb vector [handle, handle>>32, MAGIC, 0]); used for algorithms above the limb level
//! (Karatsuba recombination, powers, factorials, greatest common divisor steps).
use crate::lift::MAGIC;
use crate::sym::*;
use hmath::UBigInt;
use std::cmp::Ordering;

#[cfg(not(feature = "native"))]
pub fn ux(z: Z) -> UBigInt { UBigInt::from_raw(vec![z.0 as u32, (z.0 >> 32) as u32, MAGIC, 0]) }
#[cfg(feature = "native")]
pub fn ux(z: Z) -> UBigInt { let (v, _) = crate::lift::bx(z).into_raw(); UBigInt::from_raw(v) }
pub fn uz(x: &UBigInt) -> Z {
    let v = x.clone().into_raw();
    if v.len() == 4 && v[3] == 0 && v[2] == MAGIC { return Z(v[0] as u64 | (v[1] as u64) << 32); }
    Z::limbs(&v)
}
fn zk(k: u32) -> Z { Z::u(k as u128) }
fn sub(a: Z, b: Z) -> Z { if forkb(a.lt(b)) { panic!("subtraction underflow") } a - b }
fn div(a: Z, b: Z) -> Z { if forkb(b.eq(Z::of(0))) { panic!("division by zero") } a.fdiv(b) }
fn rem(a: Z, b: Z) -> Z { a - div(a, b) * b }
fn cmp(a: Z, b: Z) -> Ordering { if forkb(a.lt(b)) { Ordering::Less } else if forkb(a.eq(b)) { Ordering::Equal } else { Ordering::Greater } }

macro_rules! bin { ($($n:ident $m:ident $n32:ident $m32:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &UBigInt, b: &UBigInt) -> UBigInt { let f: fn(Z, Z) -> Z = $f; ux(f(uz(a), uz(b))) }
    #[no_mangle] pub fn $m(a: &mut UBigInt, b: &UBigInt) { let f: fn(Z, Z) -> Z = $f; *a = ux(f(uz(a), uz(b))) }
    #[no_mangle] pub fn $n32(a: &UBigInt, b: u32) -> UBigInt { let f: fn(Z, Z) -> Z = $f; ux(f(uz(a), zk(b))) }
    #[no_mangle] pub fn $m32(a: &mut UBigInt, b: u32) { let f: fn(Z, Z) -> Z = $f; *a = ux(f(uz(a), zk(b))) } )* } }
macro_rules! pred { ($($n:ident $m:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &UBigInt, b: &UBigInt) -> bool { let f: fn(Z, Z) -> bool = $f; f(uz(a), uz(b)) }
    #[no_mangle] pub fn $m(a: &UBigInt, b: u32) -> bool { let f: fn(Z, Z) -> bool = $f; f(uz(a), zk(b)) } )* } }
bin! { ul_add ul_add_mut ul_add_u32 ul_add_u32_mut |a, b| a + b; ul_sub ul_sub_mut ul_sub_u32 ul_sub_u32_mut sub; ul_mul ul_mul_mut ul_mul_u32 ul_mul_u32_mut |a, b| a * b;
       ul_div ul_div_mut ul_div_u32 ul_div_u32_mut div; ul_rem ul_rem_mut ul_rem_u32 ul_rem_u32_mut rem; }
pred! { ul_lt ul_lt_u32 |a, b| a.lt(b); ul_gt ul_gt_u32 |a, b| b.lt(a); ul_leq ul_leq_u32 |a, b| a.le(b); ul_geq ul_geq_u32 |a, b| b.le(a); ul_eq ul_eq_u32 |a, b| a.eq(b); ul_neq ul_neq_u32 |a, b| !a.eq(b); }
#[no_mangle] pub fn ul_comp(a: &UBigInt, b: &UBigInt) -> Ordering { cmp(uz(a), uz(b)) }
#[no_mangle] pub fn ul_comp_u32(a: &UBigInt, b: u32) -> Ordering { cmp(uz(a), zk(b)) }
#[no_mangle] pub fn ul_is_zero(a: &UBigInt) -> bool { uz(a).eq(Z::of(0)) }
#[no_mangle] pub fn ul_is_one(a: &UBigInt) -> bool { uz(a).eq(Z::of(1)) }
#[no_mangle] pub fn ul_shift_left(a: &UBigInt, n: usize) -> UBigInt { ux(uz(a) * Z::pow2(32 * fork(n as u64))) }
#[no_mangle] pub fn ul_shift_left_mut(a: &mut UBigInt, n: usize) { *a = ux(uz(a) * Z::pow2(32 * fork(n as u64))) }
#[no_mangle] pub fn ul_from_u32(n: u32) -> UBigInt { ux(Z::u(n as u128)) }
#[no_mangle] pub fn ul_from_u64(n: u64) -> UBigInt { ux(Z::u(n as u128)) }
#[no_mangle] pub fn ul_from_u128(n: u128) -> UBigInt { ux(Z::u(n)) }
#[no_mangle] pub fn ul_abs_diff(a: &UBigInt, b: &UBigInt) -> UBigInt { let (x, y) = (uz(a), uz(b)); ux(if forkb(x.lt(y)) { y - x } else { x - y }) }

/// the ones below only where the algorithm asks for lengths (windows of numbers of known length)
#[no_mangle] pub fn uq_len(a: &UBigInt) -> usize { let v = a.clone().into_raw(); if !(v.len() == 4 && v[3] == 0 && v[2] == MAGIC) { return v.len(); } let z = uz(a); for k in 1..40u64 { if forkb(z.lt(Z::pow2(32 * k))) { return k as usize; } } assume(false); 0 }
#[no_mangle] pub fn uq_shift_right(a: &UBigInt, n: usize) -> UBigInt { ux(uz(a).fdiv(Z::pow2(32 * fork(n as u64)))) }
#[no_mangle] pub fn uq_shift_right_mut(a: &mut UBigInt, n: usize) { *a = uq_shift_right(a, n) }
#[no_mangle] pub fn uq_to_u32(a: &UBigInt) -> Result<u32, hmath::ConversionError> { crate::lift::fit(uz(a), Z::of(0), Z::u(u32::MAX as u128)).map(|v| fork(v as u64) as u32) }
#[no_mangle] pub fn uq_try_u64(a: &UBigInt) -> Result<u64, hmath::ConversionError> { crate::lift::fit(uz(a), Z::of(0), Z::u(u64::MAX as u128)).map(|v| fork(v as u64)) }

fn eqz(a: Z, b: Z) -> bool { a.eq_syn(b) || a.eq(b) }
harness! {
    /// Karatsuba recombination: n and m limbs, every limb symbolic; inner products by contract
    /// f: 0 all; 1 the limb below the split point nonzero; 2 sparse: nine symbolic limbs around 0, the split and the top, the rest zero
    fn u_kara(n, m, f) {
        let h = (n / 2).min(m / 2); let gen = |n: u64| { let mut v = vec![]; for i in 0..n { v.push(if f < 2 || i < 2 || i + 2 >= n || (i + 2 >= h && i <= h + 2) { u32_() } else { 0 }); } v };
        let (v, w) = (gen(n), gen(m)); if f == 1 { assume(v[h as usize - 1] != 0); assume(w[h as usize - 1] != 0); }
        assume(v[n as usize - 1] != 0); assume(w[m as usize - 1] != 0);
        let (x, y) = (Z::limbs(&v), Z::limbs(&w));
        let r = UBigInt::from_raw(v).mul(&UBigInt::from_raw(w));
        check(eqz(uz(&r), x * y), 1);
    }
    /// power of a natural number of any size
    fn u_powl(e) {
        let x = Z::var(); assume(Z::of(0).le(x)); let a = ux(x); let z = x.pow(e as u32);
        check(eqz(uz(&a.pow_u32(e as u32)), z), 1); let mut c = a.clone(); c.pow_u32_mut(e as u32); check(eqz(uz(&c), z), 2);
    }
    /// powers of 0, 1 and their exponents up to the largest
    fn u_pow01(b, hi) {
        let e = (hi as u32) | (u8_() & 3) as u32; let e = fork(e as u64) as u32;
        let a = UBigInt::from_u32(b as u32); let r = a.pow_u32(e); let w = if e == 0 || b == 1 { 1 } else { 0 };
        check(r.into_raw() == vec![w], 1);
    }
}
