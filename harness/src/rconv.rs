//! Conversions between rationals and machine numbers.
use crate::lift::{bx, den, num, zv};
use crate::rlift::{qv, qx, Q};
use crate::sym::*;
use hmath::{inspect_ieee754_f32, inspect_ieee754_f64, BigInt, ConversionError, Ratio};

static mut HINT: Vec<(u64, u64)> = Vec::new();
#[allow(static_mut_refs)]
pub fn hint(z: Z, k: u64) { unsafe { HINT.push((z.0, k)) } }
/// floor of the base-2 logarithm of |a| (0 for 0); the harness has told the size of the numbers it made
#[allow(static_mut_refs)]
#[no_mangle] pub fn lift_log2(a: &BigInt) -> BigInt {
    let z = zv(a); let z = if forkb(z.lt(Z::of(0))) { z.neg() } else { z };
    unsafe { for (h, k) in HINT.iter() { if Z(*h).eq_syn(z) { return bx(Z::of(*k as i64)); } } }
    let mut k = 0; while !forkb(z.lt(Z::pow2(k + 1))) { k += 1; } bx(Z::of(k as i64))
}
#[no_mangle] pub fn sum_rsci(_a: &Ratio, _n: usize) -> String { String::new() }
pub fn pos(b: u64) -> Z { let n = Z::var(); assume(Z::pow2(b - 1).le(n)); assume(n.lt(Z::pow2(b))); hint(n, b - 1); n }
#[cfg(not(feature = "native"))] pub fn red(n: Z, d: Z) -> (Z, Z) { (n, d) }
#[cfg(feature = "native")] pub fn red(n: Z, d: Z) -> (Z, Z) { let g = crate::lift::gcd(n, d); (n.fdiv(g), d.fdiv(g)) }
fn p(e: i64) -> (Z, Z) { if e >= 0 { (Z::pow2(e as u64), Z::of(1)) } else { (Z::of(1), Z::pow2(e.unsigned_abs())) } }

harness! {
    /// rational n/d of bn and bd bits to f32 (t = 0) or f64 (t = 1): a nearest finite value, or refused above the largest one; v: entry point
    fn q_to_f(t, s, bn, bd, v) {
        let (n, d) = red(pos(bn), pos(bd)); let r = qx(Q { n: if s == 1 { n.neg() } else { n }, d });
        let (w, bias) = if t == 0 { (23u64, 127u64) } else { (52, 1023) }; let sg = if t == 0 { 31 } else { 63 };
        let b: Result<u64, ConversionError> = match (t, v) { (0, 0) => r.to_ieee754_f32().map(|x| x.to_bits() as u64), (0, 1) => f32::try_from(&r).map(|x| x.to_bits() as u64), (0, _) => f32::try_from(r).map(|x| x.to_bits() as u64),
            (_, 0) => r.to_ieee754_f64().map(|x| x.to_bits()), (_, 1) => f64::try_from(&r).map(|x| x.to_bits()), _ => f64::try_from(r).map(|x| x.to_bits()) };
        // |value| = n/d = v/sc units of the smallest subnormal 2^-(bias - 1 + w)
        let (v, sc) = (n * Z::pow2(bias - 1 + w), d);
        let max = (Z::pow2(w + 1) - Z::of(1)) * Z::pow2(2 * bias - 1);
        let b = match b { Ok(b) => b, Err(_) => { check((max * sc).lt(v), 1); return; } };
        let (ef, m) = (fork((b >> w) & (2 * bias + 1)), b & ((1 << w) - 1));
        check(ef != 2 * bias + 1, 2); if ef == 2 * bias + 1 { return; }
        check(forkb(ef == 0 && m == 0) || b >> sg == s, 3);
        let fm = if ef == 0 { Z::u(m as u128) } else { Z::u(m as u128) + Z::pow2(w) };
        let g = Z::pow2(ef.max(1) - 1); let x = fm * g * sc - v;
        check((x * Z::of(2)).le(g * sc), 4); check((x.neg() * Z::of(2)).le(g * sc), 5);
    }
    fn q_to_f0() { let z = qx(Q { n: Z::of(0), d: Z::of(1) }); check(z.to_ieee754_f32().map(|x| x.to_bits()) == Ok(0), 1); check(z.to_ieee754_f64().map(|x| x.to_bits()) == Ok(0), 2); }
    /// f32 / f64 to rational, exact, infinities and NaN refused; x: exponent field
    fn q_from_f(t, x, v) {
        let (w, bias) = if t == 0 { (23u64, 127u64) } else { (52, 1023) };
        let m = u64_(); assume(m < 1 << w); let s = u8_(); assume(s <= 1);
        let r = if t == 0 { let f = f32::from_bits(((s as u32) << 31) | ((x as u32) << 23) | m as u32); match v { 0 => Ratio::from_ieee754_f32(f), 1 => Ratio::try_from(f), _ => Ratio::try_from(&f) } }
            else { let f = f64::from_bits(((s as u64) << 63) | (x << 52) | m); match v { 0 => Ratio::from_ieee754_f64(f), 1 => Ratio::try_from(f), _ => Ratio::try_from(&f) } };
        if x == 2 * bias + 1 { let nan = forkb(m != 0); let neg = forkb(s == 1); check(match r { Err(ConversionError::NotANumber) => nan, Err(ConversionError::Infinity) => !nan && !neg, Err(ConversionError::NegInfinity) => !nan && neg, _ => false }, 1); return; }
        let r = match r { Ok(y) => y, Err(_) => { check(false, 2); return; } };
        let z = Z::u(if x == 0 { m } else { m | 1 << w } as u128); let z = if forkb(s == 1) { z.neg() } else { z };
        let (a, b) = p(x.max(1) as i64 - (bias + w) as i64);
        check(qv(&r).eq(Q { n: z * a, d: b }), 3);
    }
    /// the (sign, exponent, fraction) triple of a float
    fn q_inspect(t, x) {
        let (w, bias) = if t == 0 { (23u64, 127u64) } else { (52, 1023) };
        let m = u64_(); assume(m < 1 << w); let s = u8_(); assume(s <= 1);
        let r = if t == 0 { inspect_ieee754_f32(f32::from_bits(((s as u32) << 31) | ((x as u32) << 23) | m as u32)).map(|(a, b, c)| (a, b, c as u64)) } else { inspect_ieee754_f64(f64::from_bits(((s as u64) << 63) | (x << 52) | m)) };
        if x == 2 * bias + 1 { check(r.is_err(), 1); return; }
        let (neg, e, f) = match r { Ok(y) => y, Err(_) => { check(false, 2); return; } };
        if x == 0 && forkb(m == 0) { check(!neg && e == i32::MIN && f == 0, 3); return; }
        check(neg == (s == 1), 4); check(f < 1 << w, 5);
        // (2^w + f) * 2^(e - w) = z * 2^(max(x, 1) - bias - w)
        let z = Z::u(if x == 0 { m } else { m | 1 << w } as u128);
        let k = fork((x.max(1) as i64 - bias as i64 - e as i64) as u64); check(k <= w, 6); if k > w { return; }
        check((Z::u(f as u128) + Z::pow2(w)).eq(z * Z::pow2(k)), 7);
    }
    /// machine integers into rationals
    fn q_from_int(t, v) {
        macro_rules! go { ($ty:ty, $src:expr) => {{ let n: $ty = $src as $ty; let r = if v == 0 { Ratio::from(n) } else { Ratio::from(&n) }; let neg = forkb(n < (0 as $ty));
            let z = if neg { Z::u((n as i128).unsigned_abs()).neg() } else { Z::u(n as u128) };
            check(den(&r).eq(Z::of(1)), 1); check(num(&r).eq(z), 2); let (dv, dn) = r.get_denom().into_raw(); check(dv.len() == 1 && dv[0] == 1 && !dn, 3); let (nv, nn) = r.get_numer().into_raw(); check(nn == neg && (nv.len() == 1 || nv[nv.len() - 1] != 0), 4); }} }
        match t { 0 => go!(u8, u8_()), 1 => go!(u16, u16_()), 2 => go!(u32, u32_()), 3 => go!(u64, u64_()), 4 => go!(u128, u128_()), 5 => go!(i8, u8_()), 6 => go!(i16, u16_()), 7 => go!(i32, u32_()), 8 => go!(i64, u64_()), 9 => go!(i128, u128_()), 10 => go!(usize, u64_()), _ => go!(isize, u64_()) }
    }
    /// rationals to machine integers: truncation toward zero, refused exactly when that does not fit
    fn q_to_int(t, v) {
        let (n, d) = (Z::var(), Z::var()); assume(Z::of(0).lt(d)); let (n, d) = red(n, d); let r = qx(Q { n, d }); let z = qv(&r).trunc();
        macro_rules! go { ($ty:ty) => {{ let x: Result<$ty, _> = if v == 0 { (&r).try_into() } else { r.clone().try_into() }; let lo = if <$ty>::MIN == 0 { Z::of(0) } else { Z::u((<$ty>::MIN as i128).unsigned_abs()).neg() }; let fits = lo.le(z) && z.le(Z::u(<$ty>::MAX as u128));
            match x { Ok(v) => { check(fits, 1); let vz = if forkb(v < (0 as $ty)) { Z::u((v as i128).unsigned_abs()).neg() } else { Z::u(v as u128) }; check(vz.eq(z), 2) } Err(_) => check(!fits, 3) } }} }
        match t { 0 => go!(u8), 1 => go!(u16), 2 => go!(u32), 3 => go!(u64), 4 => go!(u128), 5 => go!(i8), 6 => go!(i16), 7 => go!(i32), 8 => go!(i64), 9 => go!(i128), 10 => go!(usize), 11 => go!(isize), _ => { check(zv(&BigInt::from(r.clone())).eq(z), 4); let (dd, nn): (BigInt, BigInt) = (&r).into(); check(Q { n: zv(&nn), d: zv(&dd) }.eq(qv(&r)), 5); let q = Ratio::from(&bx(n)); check(num(&q).eq(n) && den(&q).eq(Z::of(1)), 6); let q = Ratio::from_bi(bx(n)); check(num(&q).eq(n) && den(&q).eq(Z::of(1)), 7); } }
    }
}
