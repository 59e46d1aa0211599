//! Contracts for the signed-integer layer, used when the layers above it (rationals, matrices,
//! polynomials, complex numbers) are executed symbolically: every integer is one mathematical
//! integer of unbounded size. A lifted integer is carried through the real data structures as a
//! BigInt whose limb vector is [handle, handle>>32, MAGIC, 0], a shape no canonical integer has.
//! The contracts themselves are what the integer-layer checks (ubi.rs, bi.rs) establish.
use crate::sym::*;
use hmath::{BigInt, ConversionError, Ratio, UBigInt};
use std::cmp::Ordering;

pub const MAGIC: u32 = 0xB0C5_B0C5;

#[cfg(not(feature = "native"))]
pub fn bx(z: Z) -> BigInt { BigInt::from_raw(vec![z.0 as u32, (z.0 >> 32) as u32, MAGIC, 0], false) }
#[cfg(feature = "native")]
pub fn bx(z: Z) -> BigInt {
    use crate::sym::imp::*;
    let b = S.with(|s| s.borrow().zs[z.0 as usize].clone());
    let mut m = b.mag.clone(); if m.is_empty() { m.push(0); }
    BigInt::from_raw(m, b.neg)
}
/// value of an integer, lifted or ordinary
pub fn zv(x: &BigInt) -> Z {
    let (v, n) = x.clone().into_raw();
    if v.len() == 4 && v[3] == 0 && v[2] == MAGIC { let z = Z(v[0] as u64 | (v[1] as u64) << 32); return if n { z.neg() } else { z }; }
    let z = Z::limbs(&v); if n { z.neg() } else { z }
}
fn zi(k: i32) -> Z { Z::of(k as i64) }
fn z0() -> Z { Z::of(0) }
fn is(z: Z, k: i64) -> bool { z.eq(Z::of(k)) }
fn ltf(a: Z, b: Z) -> bool { forkb(a.lt(b)) }

// cofactors of gcds computed on this path: (g, a, a/g)
static mut COF: Vec<(u64, u64, u64)> = Vec::new();

pub fn gcd(a: Z, b: Z) -> Z { Z(unsafe { z_uf(1, a.0, b.0) }) }

fn gcd_z(a: Z, b: Z) -> Z {
    let g = gcd(a, b);
    if forkb(a.eq(z0())) { if forkb(b.lt(z0())) { return b.neg(); } return b; }
    if forkb(b.eq(z0())) { if forkb(a.lt(z0())) { return a.neg(); } return a; }
    assume(Z::of(1).le(g));
    let (p, q) = (a.fdiv(g), b.fdiv(g));
    assume((g * p).eq(a)); assume((g * q).eq(b)); assume((p * b).eq(q * a));
    assume(gcd(p, q).eq(Z::of(1)));
    assume(p.lt(z0()) == a.lt(z0())); assume(q.lt(z0()) == b.lt(z0())); assume(!p.eq(z0())); assume(!q.eq(z0()));
    unsafe { #[allow(static_mut_refs)] { COF.push((g.0, a.0, p.0)); COF.push((g.0, b.0, q.0)); } }
    g
}
/// quotient rounded toward zero
fn tdiv(a: Z, b: Z) -> Z {
    if forkb(b.eq(z0())) { panic!("division by zero") }
    unsafe { #[allow(static_mut_refs)] for (g, x, p) in COF.iter() {
        if Z(*g).eq_syn(b) && Z(*x).eq_syn(a) { return Z(*p); }
        if Z(*g).eq_syn(b) && Z(*x).neg().eq_syn(a) { return Z(*p).neg(); } } }
    let (na, nb) = (ltf(a, z0()), ltf(b, z0()));
    let q = (if na { a.neg() } else { a }).fdiv(if nb { b.neg() } else { b });
    if na != nb { q.neg() } else { q }
}
fn trem(a: Z, b: Z) -> Z { a - tdiv(a, b) * b }
fn cmp(a: Z, b: Z) -> Ordering { if forkb(a.lt(b)) { Ordering::Less } else if forkb(a.eq(b)) { Ordering::Equal } else { Ordering::Greater } }
fn pw(a: Z, e: u32) -> Z { let e = fork(e as u64) as u32; a.pow(e) }

macro_rules! bin { ($($n:ident $m:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &BigInt, b: &BigInt) -> BigInt { let f: fn(Z, Z) -> Z = $f; bx(f(zv(a), zv(b))) }
    #[no_mangle] pub fn $m(a: &mut BigInt, b: &BigInt) { let f: fn(Z, Z) -> Z = $f; *a = bx(f(zv(a), zv(b))) } )* } }
macro_rules! bini { ($($n:ident $m:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &BigInt, b: i32) -> BigInt { let f: fn(Z, Z) -> Z = $f; bx(f(zv(a), zi(b))) }
    #[no_mangle] pub fn $m(a: &mut BigInt, b: i32) { let f: fn(Z, Z) -> Z = $f; *a = bx(f(zv(a), zi(b))) } )* } }
macro_rules! pred { ($($n:ident $m:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &BigInt, b: &BigInt) -> bool { let f: fn(Z, Z) -> bool = $f; f(zv(a), zv(b)) }
    #[no_mangle] pub fn $m(a: &BigInt, b: i32) -> bool { let f: fn(Z, Z) -> bool = $f; f(zv(a), zi(b)) } )* } }
macro_rules! un { ($($n:ident $m:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &BigInt) -> BigInt { let f: fn(Z) -> Z = $f; bx(f(zv(a))) }
    #[no_mangle] pub fn $m(a: &mut BigInt) { let f: fn(Z) -> Z = $f; *a = bx(f(zv(a))) } )* } }

bin! { lift_add lift_add_mut |a, b| a + b; lift_sub lift_sub_mut |a, b| a - b; lift_mul lift_mul_mut |a, b| a * b;
       lift_div lift_div_mut tdiv; lift_rem lift_rem_mut trem; }
bini! { lift_add_i32 lift_add_i32_mut |a, b| a + b; lift_sub_i32 lift_sub_i32_mut |a, b| a - b; lift_mul_i32 lift_mul_i32_mut |a, b| a * b;
       lift_div_i32 lift_div_i32_mut tdiv; lift_rem_i32 lift_rem_i32_mut trem; }
pred! { lift_lt lift_lt_i32 |a, b| a.lt(b); lift_gt lift_gt_i32 |a, b| b.lt(a); lift_leq lift_leq_i32 |a, b| a.le(b); lift_geq lift_geq_i32 |a, b| b.le(a);
        lift_eq lift_eq_i32 |a, b| a.eq(b); lift_neq lift_neq_i32 |a, b| !a.eq(b); }
un! { lift_neg lift_neg_mut |a| a.neg(); lift_abs lift_abs_mut |a| if ltf(a, z0()) { a.neg() } else { a }; }
#[no_mangle] pub fn lift_comp(a: &BigInt, b: &BigInt) -> Ordering { cmp(zv(a), zv(b)) }
#[no_mangle] pub fn lift_partial_cmp(a: &BigInt, b: &BigInt) -> Option<Ordering> { Some(cmp(zv(a), zv(b))) }
#[no_mangle] pub fn lift_comp_i32(a: &BigInt, b: i32) -> Ordering { cmp(zv(a), zi(b)) }
#[no_mangle] pub fn lift_is_zero(a: &BigInt) -> bool { is(zv(a), 0) }
#[no_mangle] pub fn lift_is_one(a: &BigInt) -> bool { is(zv(a), 1) }
#[no_mangle] pub fn lift_is_neg(a: &BigInt) -> bool { zv(a).lt(z0()) }
#[no_mangle] pub fn lift_from_i32(n: i32) -> BigInt { bx(Z::of(n as i64)) }
#[no_mangle] pub fn lift_from_i64(n: i64) -> BigInt { bx(Z::of(n)) }
#[no_mangle] pub fn lift_from_i128(n: i128) -> BigInt { let u = Z::u(n as u128); bx(if forkb(n < 0) { u - Z::pow2(128) } else { u }) }
#[no_mangle] pub fn lift_pow_u32(a: &BigInt, e: u32) -> BigInt { bx(pw(zv(a), e)) }
#[no_mangle] pub fn lift_pow_u32_mut(a: &mut BigInt, e: u32) { *a = bx(pw(zv(a), e)) }
#[no_mangle] pub fn lift_pow2(e: u32) -> BigInt { bx(Z::pow2(fork(e as u64))) }
#[no_mangle] pub fn lift_gcd_bi(a: &BigInt, b: &BigInt) -> BigInt { bx(gcd_z(zv(a), zv(b))) }
fn zlen(z: Z) -> usize { let a = if ltf(z, z0()) { z.neg() } else { z }; for k in 1..5u64 { if ltf(a, Z::pow2(32 * k)) { return k as usize; } } assume(a.lt(Z::pow2(160))); 5 }
/// number of limbs: case split up to five limbs (longer ones are not explored by code that asks for it)
#[no_mangle] pub fn lift_len(a: &BigInt) -> usize { zlen(zv(a)) }
#[no_mangle] pub fn lift_ulen(a: &UBigInt) -> usize {
    let v = a.clone().into_raw();
    if v.len() == 4 && v[3] == 0 && v[2] == MAGIC { zlen(Z(v[0] as u64 | (v[1] as u64) << 32)) } else { v.len() }
}
fn tshift(a: Z, p: Z) -> Z { if ltf(a, z0()) { a.neg().fdiv(p).neg() } else { a.fdiv(p) } }
#[no_mangle] pub fn lift_shift_left(a: &BigInt, n: usize) -> BigInt { bx(zv(a) * Z::pow2(32 * fork(n as u64))) }
#[no_mangle] pub fn lift_shift_left_mut(a: &mut BigInt, n: usize) { *a = lift_shift_left(a, n) }
#[no_mangle] pub fn lift_shift_right(a: &BigInt, n: usize) -> BigInt { bx(tshift(zv(a), Z::pow2(32 * fork(n as u64)))) }
#[no_mangle] pub fn lift_shift_right_mut(a: &mut BigInt, n: usize) { *a = lift_shift_right(a, n) }
#[no_mangle] pub fn lift_mul_pow2(a: &BigInt, n: u32) -> BigInt { bx(zv(a) * Z::pow2(fork(n as u64))) }
#[no_mangle] pub fn lift_mul_pow2_mut(a: &mut BigInt, n: u32) { *a = lift_mul_pow2(a, n) }
#[no_mangle] pub fn lift_exp2(n: u64) -> BigInt { bx(Z::pow2(fork(n))) }
#[no_mangle] pub fn lift_rem_pow2(a: &BigInt, n: i32) -> BigInt { let p = Z::u(n.unsigned_abs() as u128); let z = zv(a); bx(z - tshift(z, p) * p) }
macro_rules! mg { ($n:ident $t:ty) => { #[no_mangle] pub fn $n(a: $t, b: $t) -> $t {
    if forkb(a == <$t>::MIN || b == <$t>::MIN) { panic!("abs overflow") }
    let (x, y) = (Z::of(a as i64), Z::of(b as i64)); let z = gcd_z(x, y); let g = z.low128() as $t;
    if forkb(g == 0) { return g; }
    // the divisor divides: its machine quotients are the cofactors
    if !forkb(x.eq(z0())) { assume(z.le(if forkb(x.lt(z0())) { x.neg() } else { x })); } if !forkb(y.eq(z0())) { assume(z.le(if forkb(y.lt(z0())) { y.neg() } else { y })); }
    assume((Z::of((a / g) as i64) * z).eq(x)); assume((Z::of((b / g) as i64) * z).eq(y)); assume((Z::of((a / g) as i64) * y).eq(Z::of((b / g) as i64) * x));
    g } } }
mg! { mlift_gcd_i32 i32 } mg! { mlift_gcd_i64 i64 }
pub fn fit(z: Z, lo: Z, hi: Z) -> Result<u128, ConversionError> { if ltf(z, lo) || ltf(hi, z) { return Err(ConversionError::NoData); } Ok(z.low128()) }
macro_rules! cv { ($($t:ty, $m:ident $v:ident $r:ident;)*) => { $(
    fn $m(z: Z) -> Result<$t, ConversionError> { let lo = if <$t>::MIN == 0 { z0() } else { Z::u((<$t>::MIN as i128).unsigned_abs()).neg() }; fit(z, lo, Z::u(<$t>::MAX as u128)).map(|v| v as $t) }
    #[no_mangle] pub fn $v(a: BigInt) -> Result<$t, ConversionError> { $m(zv(&a)) }
    #[no_mangle] pub fn $r(a: &BigInt) -> Result<$t, ConversionError> { $m(zv(a)) } )* } }
cv! { u8, c_u8 tlift_v_u8 tlift_r_u8; u16, c_u16 tlift_v_u16 tlift_r_u16; u32, c_u32 tlift_v_u32 tlift_r_u32; u64, c_u64 tlift_v_u64 tlift_r_u64; u128, c_u128 tlift_v_u128 tlift_r_u128; usize, c_usize tlift_v_usize tlift_r_usize;
      i8, c_i8 tlift_v_i8 tlift_r_i8; i16, c_i16 tlift_v_i16 tlift_r_i16; i32, c_i32 tlift_v_i32 tlift_r_i32; i64, c_i64 tlift_v_i64 tlift_r_i64; i128, c_i128 tlift_v_i128 tlift_r_i128; isize, c_isize tlift_v_isize tlift_r_isize; }
fn zint_u(v: u128) -> Z { Z::u(v) }
fn zint_i(v: i128) -> Z { if forkb(v < 0) { Z::u(v as u128) - Z::pow2(128) } else { Z::u(v as u128) } }
macro_rules! fi { ($($t:ty, $w:ty, $f:ident $b:ident $br:ident $r:ident $rr:ident;)*) => { $(
    #[no_mangle] pub fn $b(a: $t) -> BigInt { bx($f(a as $w)) }
    #[no_mangle] pub fn $br(a: &$t) -> BigInt { bx($f(*a as $w)) }
    #[no_mangle] pub fn $r(a: $t) -> Ratio { mk_ratio(Z::of(1), $f(a as $w)) }
    #[no_mangle] pub fn $rr(a: &$t) -> Ratio { mk_ratio(Z::of(1), $f(*a as $w)) } )* } }
fi! { u8, u128, zint_u flift_b_u8 flift_rb_u8 flift_q_u8 flift_rq_u8; u16, u128, zint_u flift_b_u16 flift_rb_u16 flift_q_u16 flift_rq_u16; u32, u128, zint_u flift_b_u32 flift_rb_u32 flift_q_u32 flift_rq_u32;
      u64, u128, zint_u flift_b_u64 flift_rb_u64 flift_q_u64 flift_rq_u64; u128, u128, zint_u flift_b_u128 flift_rb_u128 flift_q_u128 flift_rq_u128; usize, u128, zint_u flift_b_usize flift_rb_usize flift_q_usize flift_rq_usize;
      i8, i128, zint_i flift_b_i8 flift_rb_i8 flift_q_i8 flift_rq_i8; i16, i128, zint_i flift_b_i16 flift_rb_i16 flift_q_i16 flift_rq_i16; i32, i128, zint_i flift_b_i32 flift_rb_i32 flift_q_i32 flift_rq_i32;
      i64, i128, zint_i flift_b_i64 flift_rb_i64 flift_q_i64 flift_rq_i64; i128, i128, zint_i flift_b_i128 flift_rb_i128 flift_q_i128 flift_rq_i128; isize, i128, zint_i flift_b_isize flift_rb_isize flift_q_isize flift_rq_isize; }
#[no_mangle] pub fn lift_to_i32(a: &BigInt) -> Result<i32, ConversionError> { c_i32(zv(a)) }
#[no_mangle] pub fn lift_to_i64(a: &BigInt) -> Result<i64, ConversionError> { c_i64(zv(a)) }
#[no_mangle] pub fn lift_to_i128(a: &BigInt) -> Result<i128, ConversionError> { c_i128(zv(a)) }

/// a canonical rational: n / d with d > 0 and gcd(n, d) = 1 (all sizes)
pub fn rat() -> (Ratio, Z, Z) {
    let n = Z::var(); let d = Z::var();
    assume(z0().lt(d)); assume(gcd(n, d).eq(Z::of(1))); assume(gcd(d, n).eq(Z::of(1)));
    // zero is 0/1
    if forkb(n.eq(z0())) { assume(d.eq(Z::of(1))); return (mk_ratio(Z::of(1), z0()), z0(), Z::of(1)); }
    assume(!n.eq(d) | gcd(n, d).eq(d)); // gcd(d, d) = d
    (mk_ratio(d, n), n, d)
}
pub fn mk_ratio(d: Z, n: Z) -> Ratio {
    let (dv, dn) = bx(d).into_raw(); let (nv, nn) = bx(n).into_raw();
    Ratio::from_raw(dv, dn, nv, nn)
}
pub fn num(r: &Ratio) -> Z { zv(&r.get_numer()) }
pub fn den(r: &Ratio) -> Z { zv(&r.get_denom()) }
pub fn ubi_of(z: Z) -> UBigInt { let (v, _) = bx(z).into_raw(); UBigInt::from_raw(v) }
/// canonical form and value n/d (d > 0)
pub fn is_r(r: &Ratio, n: Z, d: Z, id: u32) {
    let (rn, rd) = (num(r), den(r));
    check(z0().lt(rd), id * 10 + 1);
    check((rn * d).eq(n * rd), id * 10 + 2);
    if forkb(rn.eq(z0())) { assume(gcd(rn, rd).eq(rd)); check(rd.eq(Z::of(1)), id * 10 + 3); } else { assume(!rd.eq(Z::of(1)) | gcd(rn, rd).eq(Z::of(1))); check(gcd(rn, rd).eq(Z::of(1)), id * 10 + 4); }
}
