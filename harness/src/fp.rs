//! F192. A value is observed through its public Hash implementation (the two words it is made of);
//! the number it denotes is sign * (2^127 + mantissa) * 2^(exp - 2^48), and (0, 0) is zero.
use crate::sym::*;
use crate::rlift::{qv, qx, Q};
use hmath::{F192, Ratio};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

struct Cap { d: u128, e: u64, n: u32 }
impl Hasher for Cap {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) { self.n += 100 }
    fn write_u128(&mut self, v: u128) { self.d = v; self.n += 1 }
    fn write_u64(&mut self, v: u64) { self.e = v; self.n += 1 }
}
const TOP: u128 = 1 << 127;
pub const BIAS: u64 = 1 << 48;
pub fn raw(x: &F192) -> (u128, u64) { let mut c = Cap { d: 0, e: 0, n: 0 }; x.hash(&mut c); if c.n != 2 { check(false, 9999); } (c.d, c.e) }
/// a number seen as sign, significand (2^127 <= m < 2^128) and exponent
#[derive(Clone, Copy)]
pub struct Fl { pub neg: bool, pub m: u128, pub e: u64 }
impl Fl { pub fn z(self) -> Z { Z::u(self.m) } }
pub fn fl(x: &F192) -> Fl { let (d, e) = raw(x); Fl { neg: d >> 127 == 1, m: d | TOP, e } }
pub fn is_zero(x: &F192) -> bool { let (d, e) = raw(x); d == 0 && e == 0 }
/// the number sign * m * 2^(e - BIAS), built through the public interface
pub fn mk(neg: bool, m: u128, e: u64) -> F192 {
    let x = F192::from(m);
    let x = if forkb(e >= BIAS) { x.shl(e - BIAS) } else { x.shr(BIAS - e) };
    if neg { x.neg() } else { x }
}
fn sig() -> u128 { let m = u128_(); assume(m >= TOP); m }
/// an exponent far from both ends of the range
fn mid() -> u64 { let e = u64_(); assume(e >= 3 << 46 && e <= 1 << 60); e }
/// a symbolic number of the given sign; exponent symbolic
fn any(s: u64) -> (F192, Fl) { let (m, e) = (sig(), mid()); (mk(s == 1, m, e), Fl { neg: s == 1, m, e }) }
fn halves(s: u64) -> (F192, Fl) { let (h, l) = (u64_(), u64_()); assume(h >= 1 << 63); let m = (h as u128) << 64 | l as u128; let e = mid(); (mk(s == 1, m, e), Fl { neg: s == 1, m, e }) }
pub fn at(s: u64, e: u64) -> (F192, Fl) { let m = sig(); (mk(s == 1, m, e), Fl { neg: s == 1, m, e }) }
/// |x| is within `num/den` units in its last place of the magnitude  v * 2^(e - BIAS), v > 0, and has the given sign
fn near(x: &F192, neg: bool, v: Z, e: u64, num: i64, den: i64, id: u32) {
    check(!is_zero(x), id * 10 + 1);
    let r = fl(x); check(r.neg == neg, id * 10 + 2);
    // compare r.m * 2^r.e with v * 2^e
    let up = forkb(r.e >= e); let k = fork(if up { r.e.wrapping_sub(e) } else { e.wrapping_sub(r.e) });
    check(k <= 400, id * 10 + 3); if k > 400 { return; }
    let p = Z::pow2(k);
    let (a, b, ulp) = if up { (r.z() * p, v, p) } else { (r.z(), v * p, Z::of(1)) };
    let lim = ulp * Z::of(num); let d = (a - b) * Z::of(den);
    check(d.lt(lim), id * 10 + 4); check(lim.neg().lt(d), id * 10 + 5);
}
/// |x| is exactly v * 2^(e - BIAS)
pub fn exact(x: &F192, neg: bool, v: Z, e: u64, id: u32) {
    check(!is_zero(x), id * 10 + 1);
    let r = fl(x); check(r.neg == neg, id * 10 + 2);
    let up = forkb(r.e >= e); let k = fork(if up { r.e.wrapping_sub(e) } else { e.wrapping_sub(r.e) });
    check(k <= 400, id * 10 + 3); if k > 400 { return; }
    let p = Z::pow2(k);
    check(if up { (r.z() * p).eq(v) } else { r.z().eq(v * p) }, id * 10 + 4);
}
fn same(a: &F192, b: &F192) -> bool { let (x, y) = (raw(a), raw(b)); x.0 == y.0 && x.1 == y.1 }

harness! {
    /// comparison; signs s, t; k: 0 equal exponents, 1 exponents differ by d, 2 any exponents
    fn f_cmp(s, t, k, d) {
        let (a, x) = any(s);
        let (b, y) = if k == 0 { at(t, x.e) } else if k == 1 { at(t, x.e - d) } else { any(t) };
        // |a| < |b| by value
        let less = if k == 0 { x.z().lt(y.z()) } else if k == 1 { (x.z() * Z::pow2(d)).lt(y.z()) } else { x.e < y.e || (x.e == y.e && x.m < y.m) };
        let eq = if k == 0 { x.z().eq(y.z()) } else if k == 1 { (x.z() * Z::pow2(d)).eq(y.z()) } else { x.e == y.e && x.m == y.m };
        let want = if s != t { if s == 1 { Ordering::Less } else { Ordering::Greater } }
            else if forkb(eq) { Ordering::Equal } else if forkb(less) { if s == 1 { Ordering::Greater } else { Ordering::Less } } else if s == 1 { Ordering::Less } else { Ordering::Greater };
        check(a.cmp(&b) == want, 1); check(a.partial_cmp(&b) == Some(want), 2);
        check((a == b) == (want == Ordering::Equal), 3); check((a != b) == (want != Ordering::Equal), 4);
        check((a < b) == (want == Ordering::Less), 5); check((a >= b) == (want != Ordering::Less), 6);
        check((a > b) == (want == Ordering::Greater), 7); check((a <= b) == (want != Ordering::Greater), 8);
    }
    fn f_cmp0(s) {
        let (a, _) = any(s); let z = F192::ZERO;
        check(is_zero(&z), 1); check((a < z) == (s == 1), 2); check((a > z) == (s == 0), 3); check(a != z, 4); check(z == F192::default(), 5);
        check((z < a) == (s == 0), 6); check((z > a) == (s == 1), 7); check(z.cmp(&z) == Ordering::Equal, 8); check(is_zero(&z.neg()) && is_zero(&z.abs()), 9);
        check(is_zero(&z.shl(5)) && is_zero(&z.shr(5)), 10); check(z.is_integer(), 11);
    }
    fn f_un(s) {
        let (a, x) = any(s); let n = fl(&a); check(n.neg == x.neg && n.m == x.m && n.e == x.e, 1);
        let n = fl(&a.neg()); check(n.neg != x.neg && n.m == x.m && n.e == x.e, 2);
        let n = fl(&a.abs()); check(!n.neg && n.m == x.m && n.e == x.e, 3);
        let k = u64_(); assume(k < 1 << 40);
        let n = fl(&a.shl(k)); check(n.neg == x.neg && n.m == x.m && n.e == x.e + k, 4);
        let n = fl(&a.shr(k)); check(n.neg == x.neg && n.m == x.m && n.e == x.e - k, 5);
        // the next representable magnitude
        let n = fl(&a.step_epsilon()); check(n.neg == x.neg, 6);
        if forkb(n.e == x.e) { check(n.z().eq(x.z() + Z::of(1)), 7); } else { check(n.e == x.e + 1, 8); check((n.z() * Z::of(2)).eq(x.z() + Z::of(1)), 9); }
    }
    /// o: offset of the exponent from the bias (biased by 1000)
    fn f_is_int(s, o) {
        let e = BIAS + o - 1000; let (a, x) = at(s, e);
        let want = if e >= BIAS { true } else if e + 128 <= BIAS { false } else { let p = Z::pow2(BIAS - e); (x.z().fdiv(p) * p).eq(x.z()) };
        check(a.is_integer() == want, 1);
    }
    fn f_is_int_far(s) { let e = u64_(); assume(e < BIAS - 128 || e > BIAS); assume(e > 0 && e < 1 << 62); let (a, _) = at(s, e); check(a.is_integer() == (e > BIAS), 1); }

    /// sum of two numbers of the same sign; exponents differ by d; w: 0 first is larger
    fn f_add(s, d, w) {
        let (a, x) = any(s); let (b, y) = at(s, x.e - d);
        let v = x.z() * Z::pow2(d) + y.z();
        let r = if w == 0 { a.add(&b) } else { b.add(&a) };
        near(&r, x.neg, v, y.e, 1, 1, 1);
        if d == 0 { // exact when it fits
            let even = forkb((v.fdiv(Z::of(2)) * Z::of(2)).eq(v)); if even { exact(&r, x.neg, v, y.e, 2); } }
    }
    /// the same with exponents further apart than the precision
    fn f_add_far(s, w) { let (a, x) = any(s); let (b, y) = any(s); assume(x.e > y.e && x.e - y.e >= 128); let r = if w == 0 { a.add(&b) } else { b.add(&a) }; check(same(&r, &a), 1); let _ = y; }
    fn f_add0(s) {
        let (a, x) = any(s); let z = F192::ZERO; check(same(&a.add(&z), &a), 1); check(same(&z.add(&a), &a), 2); check(same(&a.sub(&z), &a), 3);
        let n = fl(&z.sub(&a)); check(n.neg != x.neg && n.m == x.m && n.e == x.e, 4); check(is_zero(&z.add(&z)) && is_zero(&z.sub(&z)), 5);
    }
    /// opposite signs reduce to same-sign operations: a - b for opposite signs
    fn f_sub_opp(s, d, w) {
        let (a, x) = any(s); let (b, y) = at(1 - s, x.e - d);
        let v = x.z() * Z::pow2(d) + y.z();
        if w == 0 { near(&a.sub(&b), x.neg, v, y.e, 1, 1, 1); } else { near(&b.sub(&a), y.neg, v, y.e, 1, 1, 2); }
    }
    fn f_mul(s, t) {
        let (a, x) = halves(s); let (b, y) = halves(t);
        let r = a.mul(&b); check(!is_zero(&r), 1); let n = fl(&r); check(n.neg == (x.neg != y.neg), 2);
        // (x.m * y.m) * 2^(x.e + y.e - 2 BIAS) against n.m * 2^(n.e - BIAS): n.e = x.e + y.e - BIAS + 127 or 128
        let base = (x.e + y.e).wrapping_sub(BIAS);
        let p = x.z() * y.z();
        let big = forkb(n.e == base.wrapping_add(128)); if !big { check(n.e == base.wrapping_add(127), 3); }
        let v = n.z() * Z::pow2(if big { 128 } else { 127 });
        let err = Z::pow2(127 + 4); check((p - v).lt(err), 4); check((v - p).lt(err), 5);
    }
    /// integers of bi and bj bits multiply exactly
    fn f_mul_int(s, t, bi, bj) {
        let (i, j) = (u64_(), u64_()); assume(i >> (bi - 1) == 1 && j >> (bj - 1) == 1);
        let (a, b) = (F192::from(i), F192::from(j)); let (a, b) = (if s == 1 { a.neg() } else { a }, if t == 1 { b.neg() } else { b });
        exact(&a.mul(&b), s != t, Z::u(i as u128) * Z::u(j as u128), BIAS, 1);
    }
    fn f_mul0(s) { let (a, x) = any(s); let z = F192::ZERO; check(is_zero(&a.mul(&z)) && is_zero(&z.mul(&a)) && is_zero(&z.mul(&z)), 1); let n = fl(&a.mul(&F192::ONE)); check(n.neg == x.neg && n.e == x.e, 2); check((x.z() - n.z()).lt(Z::of(2)) && (n.z() - x.z()).lt(Z::of(2)), 3); check(is_zero(&a.mul_i32(0)), 4); check(is_zero(&z.mul_i32(7)), 5); check(is_zero(&z.div_i32(7)), 6); }
    /// product by a machine integer of b bits (b = 32: the most negative one); g: its sign
    fn f_mul_i32(s, b, g) {
        let (a, x) = any(s);
        let k: i32 = if b == 32 { i32::MIN } else { let k = u32_(); assume(k >= 1 << (b - 1) && (k as u64) < 1u64 << b); if g == 1 { -(k as i32) } else { k as i32 } };
        near(&a.mul_i32(k), x.neg != (k < 0), x.z() * Z::u(k.unsigned_abs() as u128), x.e, 1, 1, 1);
    }
    /// quotient by a machine integer: k concrete when c = 1, else symbolic of b bits
    fn f_div_i32(s, b, g, c) {
        let (a, x) = any(s);
        let k: i32 = if c == 1 { let k = b as u32; if g == 1 { (k as i32).wrapping_neg() } else { k as i32 } } else { let k = u32_(); assume(k >= 1 << (b - 1) && (k as u64) < 1u64 << b); if g == 1 { -(k as i32) } else { k as i32 } };
        let r = a.div_i32(k); let n = fl(&r); check(n.neg == (x.neg != (k < 0)), 1);
        let j = fork(x.e.wrapping_sub(n.e)); check(j <= 40, 2); if j > 40 { return; }
        // |n.m * |k| - x.m * 2^j| < |k|
        let zk = Z::u(k.unsigned_abs() as u128); let d = n.z() * zk - x.z() * Z::pow2(j);
        check(d.lt(zk), 3); check(zk.neg().lt(d), 4);
    }
    fn f_div_zero(s) { let (a, _) = any(s); expect_panic(); let _ = a.div_i32(0); }
    fn f_div_zero2(s) { let (a, _) = any(s); expect_panic(); let _ = a.div(&F192::ZERO); }

    /// truncation, floor, ceiling at exponent bias + o - 1000
    fn f_trunc(s, o) {
        let e = BIAS + o - 1000; let (a, x) = at(s, e);
        let t = a.truncate(); let f = a.floor(); let c = a.ceil();
        if e >= BIAS { check(same(&t, &a) && same(&f, &a) && same(&c, &a), 1); return; }
        let p = Z::pow2(BIAS - e); let q = x.z().fdiv(p); let whole = forkb((q * p).eq(x.z()));
        let is = |y: &F192, z: Z, id: u32| { if forkb(z.eq(Z::of(0))) { check(is_zero(y), id * 10 + 9); } else { exact(y, x.neg, z, BIAS, id); } };
        is(&t, q, 1);
        let away = if whole { q } else { q + Z::of(1) };
        if s == 1 { is(&f, away, 2); is(&c, q, 3); } else { is(&f, q, 2); is(&c, away, 3); }
    }
    fn f_trunc_far(s) {
        let e = u64_(); assume(e < BIAS - 128 || e >= BIAS); assume(e > 0 && e < 1 << 62); let (a, _) = at(s, e);
        let t = a.truncate(); let f = a.floor(); let c = a.ceil();
        if forkb(e >= BIAS) { check(same(&t, &a) && same(&f, &a) && same(&c, &a), 1); }
        else { check(is_zero(&t), 2); if s == 1 { exact(&f, true, Z::of(1), BIAS, 3); check(is_zero(&c), 4); } else { check(is_zero(&f), 5); exact(&c, false, Z::of(1), BIAS, 6); } }
    }
    /// machine integer of type t into F192 (exact) and back
    fn f_from_int(t) {
        macro_rules! go { ($ty:ty, $src:expr) => {{ let n: $ty = $src as $ty; let x = F192::from(n); let neg = forkb(n < (0 as $ty));
            let z = if neg { Z::u((n as i128).unsigned_abs()) } else { Z::u(n as u128) };
            if forkb(n == 0) { check(is_zero(&x), 1); } else { exact(&x, neg, z, BIAS, 2); }
            let back: Result<$ty, _> = x.try_into(); match back { Ok(v) => check(v == n, 3), Err(_) => check(false, 4) } }} }
        match t { 0 => go!(u8, u8_()), 1 => go!(u16, u16_()), 2 => go!(u32, u32_()), 3 => go!(u64, u64_()), 4 => go!(u128, u128_()), 5 => go!(i8, u8_()), 6 => go!(i16, u16_()), 7 => go!(i32, u32_()), 8 => go!(i64, u64_()), 9 => go!(i128, u128_()), 10 => go!(usize, u64_()), _ => go!(isize, u64_()) }
    }
    /// F192 to machine integers: truncation toward zero, or refused when that does not fit; exponent bias + o - 1000
    fn f_to_int(t, s, o) {
        let e = BIAS + o - 1000; let (a, x) = at(s, e);
        let z = if e > BIAS { x.z() * Z::pow2(e - BIAS) } else { x.z().fdiv(Z::pow2(BIAS - e)) }; let z = if s == 1 { z.neg() } else { z };
        macro_rules! go { ($ty:ty) => {{ let r: Result<$ty, _> = a.try_into(); let lo = if <$ty>::MIN == 0 { Z::of(0) } else { Z::u((<$ty>::MIN as i128).unsigned_abs()).neg() }; let hi = Z::u(<$ty>::MAX as u128);
            let fits = lo.le(z) && z.le(hi);
            // negative numbers are refused by the unsigned types even when they truncate to zero
            if s == 1 && <$ty>::MIN == 0 { check(r.is_err(), 3); return; }
            match r { Ok(v) => { check(fits, 1); let vz = if forkb(v < (0 as $ty)) { Z::u((v as i128).unsigned_abs()).neg() } else { Z::u(v as u128) }; check(vz.eq(z), 2) } Err(_) => check(!fits, 4) } }} }
        match t { 0 => go!(u8), 1 => go!(u16), 2 => go!(u32), 3 => go!(u64), 4 => go!(u128), 5 => go!(i8), 6 => go!(i16), 7 => go!(i32), 8 => go!(i64), 9 => go!(i128), 10 => go!(usize), _ => go!(isize) }
    }
    /// far exponents: below one the result is 0, above 2^128 refused
    fn f_to_int_far(s) {
        let e = u64_(); assume(e > 0 && e < 1 << 62); assume(e < BIAS - 127 || e > BIAS); let (a, _) = at(s, e);
        let u: Result<u128, _> = a.try_into(); let i: Result<i128, _> = a.try_into(); let h: Result<u64, _> = a.try_into(); let g: Result<i32, _> = a.try_into();
        if forkb(e > BIAS) { check(u.is_err() && i.is_err() && h.is_err() && g.is_err(), 1); }
        else { check(i == Ok(0) && g == Ok(0), 2); if s == 0 { check(u == Ok(0) && h == Ok(0), 3); } }
    }
    fn f_ilog2(o) { let e = BIAS + o - 1000; let (a, _) = at(0, e); let r = a.ilog2(); let k = o as i64 - 1000 + 127; if k == 0 { check(is_zero(&r), 1); } else { exact(&r, k < 0, Z::u(k.unsigned_abs() as u128), BIAS, 2); } }
    fn f_pow2(o) { let k = o as i64 - 1000; exact(&F192::from_pow2(k), false, Z::of(1), (BIAS as i64 + k) as u64, 1); }
    fn f_consts() { exact(&F192::ONE, false, Z::of(1), BIAS, 1); check(is_zero(&F192::ZERO), 2); }

    /// difference of two numbers of the same sign, exponents d apart (rational contracts); w: 0 the one with the larger exponent first
    fn f_sub(s, d, w, c) {
        let (a, x) = if c == 1 { at(s, BIAS + 7) } else { any(s) }; let (b, y) = at(s, x.e - d);
        let v = x.z() * Z::pow2(d) - y.z();
        let r = if w == 0 { a.sub(&b) } else { b.sub(&a) };
        if d == 0 && forkb(v.eq(Z::of(0))) { check(is_zero(&r), 1); return; }
        let ng = forkb(v.lt(Z::of(0))); let neg = x.neg != ng; let neg = if w == 0 { neg } else { !neg };
        near(&r, neg, if ng { v.neg() } else { v }, y.e, 1, 1, 2);
    }
    fn f_sub_far(s, w) { let (a, x) = any(s); let (b, y) = any(s); assume(x.e > y.e && x.e - y.e >= 140); let r = if w == 0 { a.sub(&b) } else { b.sub(&a) }; let n = fl(&r); check(n.e == x.e && n.m == x.m && n.neg == (x.neg == (w == 0)), 1); let _ = y; }
    /// opposite signs: a + b is a difference of magnitudes
    fn f_add_opp(s, d, w) {
        let (a, x) = any(s); let (b, y) = at(1 - s, x.e - d);
        let v = x.z() * Z::pow2(d) - y.z();
        let r = if w == 0 { a.add(&b) } else { b.add(&a) };
        if d == 0 && forkb(v.eq(Z::of(0))) { check(is_zero(&r), 1); return; }
        let ng = forkb(v.lt(Z::of(0)));
        near(&r, x.neg != ng, if ng { v.neg() } else { v }, y.e, 1, 1, 2);
    }
    /// rounding to the nearest integer (half away from zero) and the fractional part, at exponent bias + o - 1000
    fn f_round(s, o, w) {
        let e = BIAS + o - 1000; let (a, x) = at(s, e);
        let p = Z::pow2(if e < BIAS { BIAS - e } else { 0 }); let q = if e < BIAS { x.z().fdiv(p) } else { x.z() };
        let f = if e < BIAS { x.z() - q * p } else { Z::of(0) };
        if w == 0 {
            let r = a.round();
            if e >= BIAS { check(same(&r, &a), 1); return; }
            let z = if forkb(p.le(f * Z::of(2))) { q + Z::of(1) } else { q };
            if forkb(z.eq(Z::of(0))) { check(is_zero(&r), 2); } else { exact(&r, x.neg, z, BIAS, 3); }
        } else {
            let r = a.frac();
            if forkb(f.eq(Z::of(0))) { check(is_zero(&r), 4); } else { exact(&r, x.neg, f, e, 5); }
        }
    }
    /// F192 to Ratio is exact
    fn f_to_ratio(s, o, v) {
        let e = BIAS + o - 1000; let (a, x) = at(s, e); let r: Ratio = if v == 0 { Ratio::from(a) } else { Ratio::from(&a) };
        let m = if s == 1 { x.z().neg() } else { x.z() };
        let w = if e >= BIAS { Q { n: m * Z::pow2(e - BIAS), d: Z::of(1) } } else { Q { n: m, d: Z::pow2(BIAS - e) } };
        check(qv(&r).eq(w), 1);
    }
    /// Ratio to F192: the nearest; |n/d| in [2^(k-1000), 2^(k-999))
    fn f_from_ratio(s, k, v) {
        let (n, d) = (Z::var(), Z::var()); assume(Z::of(0).lt(n) && Z::of(0).lt(d));
        let (lo, hi) = if k >= 1000 { (Z::pow2(k - 1000) * d, n) } else { (d, n * Z::pow2(1000 - k)) }; assume(lo.le(hi) && hi.lt(lo * Z::of(2)));
        let q = Q { n: if s == 1 { n.neg() } else { n }, d };
        let r = qx(q); let x: F192 = if v == 0 { F192::from(&r) } else { F192::from(r) };
        check(!is_zero(&x), 1); let f = fl(&x); check(f.neg == (s == 1), 2);
        // f.m * 2^(f.e - BIAS) against n / d: twice the error is at most one unit 2^(f.e - BIAS)
        let up = forkb(f.e >= BIAS); let j = fork(if up { f.e.wrapping_sub(BIAS) } else { BIAS.wrapping_sub(f.e) }); check(j <= 1200, 3); if j > 1200 { return; }
        let p = Z::pow2(j);
        let (a, b, u) = if up { (f.z() * p * d, n, p * d) } else { (f.z() * d, n * p, d) };
        check(((a - b) * Z::of(2)).le(u), 4); check(((b - a) * Z::of(2)).le(u), 5);
    }
    fn f_from_ratio0() { check(is_zero(&F192::from(qx(Q { n: Z::of(0), d: Z::of(1) }))), 1); check(qv(&Ratio::from(F192::ZERO)).n.eq(Z::of(0)), 2); }
    /// f32 (t = 0) and f64 (t = 1) into F192: exact, infinities and NaN refused; x: biased exponent field
    fn f_from_f(t, x) {
        let (w, bias) = if t == 0 { (23u64, 127u64) } else { (52, 1023) };
        let m = u64_(); assume(m < 1 << w); let s = u8_() & 1;
        let r = if t == 0 { F192::try_from(f32::from_bits(((s as u32) << 31) | ((x as u32) << 23) | m as u32)) } else { F192::try_from(f64::from_bits(((s as u64) << 63) | (x << 52) | m)) };
        if x == 2 * bias + 1 { check(r.is_err(), 1); return; }
        let y = match r { Ok(y) => y, Err(_) => { check(false, 2); return; } };
        if x == 0 && forkb(m == 0) { check(is_zero(&y), 3); return; }
        let z = Z::u(if x == 0 { m } else { m | 1 << w } as u128);
        let neg = forkb(s == 1);
        exact(&y, neg, z, BIAS + x.max(1) - bias - w, 4);
    }
    /// F192 to f32 / f64: a nearest value (infinity beyond the range); exponent bias + o - 3000
    fn f_to_f(t, s, o) {
        let e = BIAS + o - 3000; let (a, x) = at(s, e);
        to_f(t, s, a, x);
    }
    fn f_to_f_far(t, s) {
        let e = u64_(); assume(e > 0 && e < 1 << 62); assume(e < BIAS - 1300 || e > BIAS + 1000); let (a, _) = at(s, e);
        let (b, w) = if t == 0 { (f32::from(a).to_bits() as u64, 23) } else { (f64::from(a).to_bits(), 52) };
        let top = if t == 0 { 255u64 } else { 2047 }; let sg = if t == 0 { 31 } else { 63 };
        if forkb(e > BIAS) { check(b == top << w | s << sg, 1); } else { check(b & !(1 << sg) == 0, 2); }
    }
    fn f_to_f0() { check(f32::from(F192::ZERO).to_bits() == 0, 1); check(f64::from(F192::ZERO).to_bits() == 0, 2); }
}
fn to_f(t: u64, s: u64, a: F192, x: Fl) {
    let (w, bias) = if t == 0 { (23u64, 127u64) } else { (52, 1023) };
    let b = if t == 0 { f32::from(a).to_bits() as u64 } else { f64::from(a).to_bits() };
    let sg = if t == 0 { 31 } else { 63 };
    let (ef, m) = ((b >> w) & (2 * bias + 1), b & ((1 << w) - 1));
    // everything in units of 2^-(bias - 1 + w), the smallest subnormal; |a| = x.m * 2^(x.e - BIAS)
    let unit = BIAS - (bias - 1) - w; // exponent of one unit
    let ef = fork(ef);
    // halfway between the largest finite value and the next power of two, in units
    let k = x.e.wrapping_sub(unit); let below = x.e < unit;
    let (v, sc) = if below { (x.z(), Z::pow2(unit - x.e)) } else { (x.z() * Z::pow2(k), Z::of(1)) }; // |a| = v / sc units
    if ef == 2 * bias + 1 {
        check(m == 0, 1); check(b >> sg == s, 2);
        // (2^(w+1) - 1/2) * 2^(2 bias - 1) <= |a|
        check(((Z::pow2(w + 2) - Z::of(1)) * Z::pow2(2 * bias - 2) * sc).le(v), 3);
        return;
    }
    let fm = if ef == 0 { Z::u(m as u128) } else { Z::u(m as u128) + Z::pow2(w) };
    let g = Z::pow2(ef.max(1) - 1); let f = fm * g; // value of the result in units; g: spacing there
    check(forkb(ef == 0 && m == 0) || b >> sg == s, 4);
    let d = f * sc - v;
    check((d * Z::of(2)).le(g * sc), 5); check((d.neg() * Z::of(2)).le(g * sc), 6);
}
