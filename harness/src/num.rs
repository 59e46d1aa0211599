//! Number theory on naturals: roots, greatest common divisors, primes, factorials, Fibonacci numbers.
use crate::sym::*;
use crate::ulift::{ux, uz};
use hmath::{BigInt, UBigInt, gcd_bi, gcd_ubi};

fn zu(x: &UBigInt) -> Z { Z::limbs(&x.clone().into_raw()) }
fn div(k: u32, n: u32) -> bool { n % k == 0 }
/// below 2^b by construction (keeps the terms short)
fn below(b: u64) -> u32 { if b <= 8 { (u8_() & ((1u32 << b) - 1) as u8) as u32 } else { (u16_() & ((1u32 << b) - 1) as u16) as u32 } }
/// b-bit number whose low t bits are zero
fn window(b: u64, t: u64, k: u64) -> Vec<u32> {
    let m = (b / 32 + 1) as usize; let mut v = vec![0u32; m]; let set = |v: &mut Vec<u32>, i: u64| v[(i / 32) as usize] |= 1 << (i % 32);
    set(&mut v, b - 1);
    if k == 1 { for i in t..b { set(&mut v, i); } }
    if k > 1 { let mut s = 0x9e3779b97f4a7c15u64.wrapping_mul(k * 131 + b); for i in t..b { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); if s >> 62 & 1 == 1 { set(&mut v, i); } } }
    v
}
/// x mod d, one path per residue
fn fork_mod(x: Z, d: u64) -> u64 { let r = x - x.fdiv(Z::of(d as i64)) * Z::of(d as i64); for i in 0..d { if forkb(r.eq(Z::of(i as i64))) { return i; } } assume(false); 0 }
/// contract for the root of a number of one or two limbs: the root itself, one path per value
#[no_mangle] pub fn sum_isqrt(a: &UBigInt) -> UBigInt {
    let v = a.clone().into_raw(); if v.len() > 2 { return a.sqrt(); }
    let n = Z::limbs(&v); let (mut lo, mut hi) = (0u64, 1u64 << 32);
    while hi - lo > 1 { let m = (lo + hi) / 2; let q = Z::u(m as u128); if forkb(n.lt(q * q)) { hi = m; } else { lo = m; } }
    UBigInt::from_raw(vec![lo as u32])
}
const P: [u64; 10] = [65519, 65521, 65537, 65539, 65543, 65551, 1048573, 1048583, 1048589, 1048601];
harness! {
    /// floor of the square root of a natural below 2^b
    fn n_sqrt(b, k) {
        let n = below(b); let v = vec![n];
        let r = if k == 0 { UBigInt::from_raw(v).sqrt().into_raw() } else { let (r, neg) = BigInt::from_raw(v, forkb(k == 2 && n != 0)).sqrt().into_raw(); check(neg == (k == 2 && n != 0), 1); r };
        check(r.len() == 1, 2); if r.len() != 1 { return; }
        let r = r[0]; check(r < 1 << 15, 3); check(r * r <= n, 4); check(n < (r + 1) * (r + 1), 5);
    }
    /// the same for b <= 64 bits, the low t bits symbolic
    fn n_sqrt64(b, t, k) {
        let base = window(b, t, k); let lo = if t <= 8 { u8_() as u64 } else if t <= 16 { u16_() as u64 } else if t <= 32 { u32_() as u64 } else { u64_() }; let mut c = base[0] as u64 | if base.len() > 1 { (base[1] as u64) << 32 } else { 0 }; if k == 2 { let q = window((b + 1) / 2, 0, 3)[0] as u64; c = q * q >> t << t; } let lo = lo & ((1 << t) - 1); let n = c | lo;
        let v = if n >> 32 == 0 { vec![n as u32] } else { vec![n as u32, (n >> 32) as u32] };
        let r = UBigInt::from_raw(v).sqrt().into_raw(); check(r.len() == 1, 1); if r.len() != 1 { return; }
        let r = Z::u(r[0] as u128); let e = r + Z::of(1); let n = Z::u(n as u128); check((r * r).le(n), 2); check(n.lt(e * e), 3);
    }
    /// square roots in a window: a number of b bits of kind k (0 lowest, 1 highest, 2 around a square, else mixed bits) whose low t bits are symbolic
    fn n_sqrtw(b, t, k) {
        let m = (b / 32 + 1) as usize; let base = window(b, t, k);
        let z = Z::var(); assume(Z::of(0).le(z) && z.lt(Z::pow2(t))); let mut v = base; v.truncate(m); let n = z + if k == 2 { let q = Z::limbs(&window((b + 1) / 2, 0, 3)); q * q - Z::pow2(t - 1) } else { Z::limbs(&v) };
        let r = ux(n).sqrt(); let r = uz(&r); let e = r + Z::of(1); check((r * r).le(n), 1); check(n.lt(e * e), 2);
    }
    /// greatest common divisor of naturals below 2^b and 2^c
    fn n_gcd(b, c, s) {
        let (x, y) = (below(b), below(c));
        let g = if s == 0 { gcd_ubi(&UBigInt::from_u32(x), &UBigInt::from_u32(y)).into_raw() } else { let (mut a, mut e) = (BigInt::from(x), BigInt::from(y)); if s & 1 == 1 { a.neg_mut(); } if s & 2 == 2 { e.neg_mut(); } let (g, neg) = gcd_bi(&a, &e).into_raw(); check(!neg, 1); g };
        check(g.len() == 1, 2); let g = g[0];
        if forkb(x == 0) { check(g == y, 3); return; } if forkb(y == 0) { check(g == x, 4); return; }
        check(g != 0, 5); if g == 0 { return; } check(x % g == 0 && y % g == 0, 6);
        let d = below(b.min(c)); assume(d > 0 && d <= x && d <= y); assume(x % d == 0); assume(y % d == 0); check(g % d == 0, 7);
    }
    /// gcd(g p, g q) = g gcd(p, q) for every natural g > 0 of any size; p and q given
    fn n_gcdz(p, q, s) {
        let g = Z::var(); assume(Z::of(0).lt(g)); let (mut x, mut y) = (p, q); while y != 0 { let r = x % y; x = y; y = r; }
        let (a, b) = (ux(g * Z::of(p as i64)), ux(g * Z::of(q as i64)));
        let r = if s == 0 { uz(&gcd_ubi(&a, &b)) } else { let r = gcd_bi(&BigInt::from_ubi(a, s & 1 == 1 && p > 0), &BigInt::from_ubi(b, s & 2 == 2 && q > 0)); let (v, neg) = r.into_raw(); check(!neg, 1); uz(&UBigInt::from_raw(v)) };
        check(r.eq(g * Z::of(x as i64)), 2);
    }
    /// gcd(x, d) for every natural x and concrete d
    fn n_gcdc(d, s) {
        let x = Z::var(); assume(Z::of(0).le(x)); let mut p = (d, fork_mod(x, d)); let y = Z::of(d as i64); while p.1 != 0 { p = (p.1, p.0 % p.1); }
        check(uz(&if s == 0 { gcd_ubi(&ux(x), &ux(y)) } else { gcd_ubi(&ux(y), &ux(x)) }).eq(Z::of(p.0 as i64)), 1);
    }
    /// one number a multiple of the other, both of any size: gcd(x, k x + d) = gcd(x, d) for concrete d and 0 < d < x
    fn n_gcdr(d) {
        let (x, k) = (Z::var(), Z::var()); assume(Z::of(d as i64).lt(x)); assume(Z::of(0).lt(k));
        let m = fork_mod(x, d); let mut p = (d, m); while p.1 != 0 { p = (p.1, p.0 % p.1); }
        check(uz(&gcd_ubi(&ux(x), &ux(k * x + Z::of(d as i64)))).eq(Z::of(p.0 as i64)), 1);
    }
    /// primality of b-bit numbers in a window of 2^t (t <= 16)
    fn n_prime(b, t, k) {
        let base = window(b, t, k)[0]; let n = base + (below(t.min(8)) | if t > 8 { below(t - 8) << 8 } else { 0 });
        let p = UBigInt::from_u32(n).is_prime(); check(p == BigInt::from_raw(vec![n], forkb(n > 0)).is_prime(), 1);
        let mut c = n < 2; let mut d = 2u32; while d * d < base + (1 << t) { c |= (d * d <= n) & div(d, n); d += 1; }
        check(p == !c, 2);
    }
    /// multi-limb multiples of d (low 16 bits symbolic) are composite
    fn n_primew(b, k, d) {
        let mut v = window(b, 16, k); let lo = u16_(); v[0] |= lo as u32; if v[v.len() - 1] == 0 { v.pop(); } let n = Z::limbs(&v); let e = Z::of(d as i64); assume(n.eq(n.fdiv(e) * e));
        check(!UBigInt::from_raw(v.clone()).is_prime(), 1); check(!BigInt::from_raw(v, true).is_prime(), 2);
    }
    /// p q for neighbouring primes p <= q around 2^16 (case split over the pairs): composite although every smaller divisor fails; w: p itself is prime
    fn n_primesq(k, w) {
        let i = fork(u8_() as u64 & 1) as usize; let (p, q) = (P[k as usize], P[k as usize + i]); let n = if w == 1 { q } else { p * q };
        check(UBigInt::from_u64(n).is_prime() == (w == 1), 1);
    }
    fn n_factorsq(k) {
        let i = fork(u8_() as u64 & 1) as usize; let (p, q) = (P[k as usize], P[k as usize + i]); let f = UBigInt::from_u64(p * q).prime_factorial();
        check(f.len() == 2 && f[0] == UBigInt::from_u64(p) && f[1] == UBigInt::from_u64(q), 1);
    }
    fn n_factor(b, lo, s) {
        let n = below(b); assume( n as u64 >= lo && n > 1);
        let f: Vec<u32> = if s == 0 { UBigInt::from_u32(n).prime_factorial().into_iter().map(|x| { let v = x.into_raw(); check(v.len() == 1, 1); v[0] }).collect() } else { BigInt::from_raw(vec![n], true).prime_factorial().into_iter().map(|x| { let (v, g) = x.into_raw(); check(v.len() == 1 && !g, 1); v[0] }).collect() };
        let mut m = 1u64; let mut last = 2; check(!f.is_empty(), 2);
        for p in &f { check(*p >= last, 3); last = *p; m = m * *p as u64; let mut c = false; let mut d = 2u32; while d * d < 1 << b { c |= (d * d <= *p) & div(d, *p); d += 1; } check(!c, 4); }
        check(m == n as u64, 5);
    }
    /// factors of 2^i 3^j 5^k m, m < 2^t
    fn n_factorw(i, j, k, t) {
        let m = below(t); assume(m > 0); let mut c = 1u128 << i; for _ in 0..j { c *= 3; } for _ in 0..k { c *= 5; } let n = c * m as u128;
        let v = if c >> 64 != 0 { vec![n as u32, (n >> 32) as u32, (n >> 64) as u32] } else { vec![n as u32, (n >> 32) as u32] }; assume(v[v.len() - 1] != 0);
        let f: Vec<u32> = UBigInt::from_raw(v).prime_factorial().into_iter().map(|x| { let v = x.into_raw(); check(v.len() == 1, 1); v[0] }).collect();
        let mut z = Z::of(1); let mut last = 2; for p in &f { check(*p >= last, 2); last = *p; z = z * Z::u(*p as u128); let mut c = false; let mut d = 2u32; while d * d < 1 << t { c |= (d * d <= *p) & div(d, *p); d += 1; } check(!c, 3); }
        check(z.eq(Z::u(n)), 4);
    }
    /// machine gcd: gcd(+-g p, +-g q) = g gcd(p, q)
    fn n_gcdi(p, q, s, w) {
        let g = u8_() as i64 + 1; let (mut x, mut y) = (p as i64, q as i64); while y != 0 { let r = x % y; x = y; y = r; }
        let (a, b) = (if s & 1 == 1 { -g * p as i64 } else { g * p as i64 }, if s & 2 == 2 { -g * q as i64 } else { g * q as i64 });
        let r = if w == 0 { hmath::utils::gcd_i64(a, b) } else { hmath::utils::gcd_i32(a as i32, b as i32) as i64 }; check(r == g * x, 1);
    }
    fn n_fact(lo, hi, s) {
        let n = u32_(); assume(n as u64 >= lo && (n as u64) < hi); let n = fork(n as u64) as u32;
        let mut z = Z::of(1); for i in 2..=n { z = z * Z::of(i as i64); }
        if s == 0 { check(zu(&UBigInt::factorial(n)).eq(z), 1); } else { let (v, g) = BigInt::factorial(n).into_raw(); check(!g && Z::limbs(&v).eq(z), 2); }
    }
    fn n_fib(lo, hi, s) {
        let n = u32_(); assume(n as u64 >= lo && (n as u64) < hi); let n = fork(n as u64) as u32;
        let (mut a, mut b) = (Z::of(0), Z::of(1)); for _ in 0..n { let c = a + b; a = b; b = c; }
        if s == 0 { check(zu(&UBigInt::fibonacci(n)).eq(a), 1); } else { let (v, g) = BigInt::fibonacci(n).into_raw(); check(!g && Z::limbs(&v).eq(a), 2); }
    }
}
