use crate::sym::*;
use crate::util::*;
use hmath::UBigInt;
use std::cmp::Ordering;

/// r = a mod k for k > 0
fn is_rem(r: Z, a: Z, k: Z) { check(r.lt(k), 92); check(Z::of(0).le(r), 93); check(((a - r).fdiv(k) * k).eq(a - r), 91); }

harness! {
    fn u_add(n, m) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        let r = a.add(&b); is_u(&r, za + zb, 1);
        let mut c = a.clone(); c.add_mut(&b); is_u(&c, za + zb, 2);
        check(zu(&a).eq(za), 3); check(zu(&b).eq(zb), 4);
    }
    fn u_add_u32(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        is_u(&a.add_u32(k), za + zk, 1);
        let mut c = a.clone(); c.add_u32_mut(k); is_u(&c, za + zk, 2);
    }
    fn u_sub(n, m) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        if forkb(za.lt(zb)) { expect_panic(); let _ = a.sub(&b); }
        else { is_u(&a.sub(&b), za - zb, 1); let mut c = a.clone(); c.sub_mut(&b); is_u(&c, za - zb, 2); }
    }
    fn u_sub_u32(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        if forkb(za.lt(zk)) { expect_panic(); let _ = a.sub_u32(k); }
        else { is_u(&a.sub_u32(k), za - zk, 1); let mut c = a.clone(); c.sub_u32_mut(k); is_u(&c, za - zk, 2); }
    }
    fn u_abs_diff(n, m) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        is_u(&a.abs_diff(&b), (za - zb).abs(), 1);
    }
    fn u_abs_diff_u32(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        is_u(&a.abs_diff_u32(k), (za - zk).abs(), 1);
    }
    fn u_mul(n, m) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        is_u(&a.mul(&b), za * zb, 1);
    }
    fn u_mul_u32(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        is_u(&a.mul_u32(k), za * zk, 1);
        let mut c = a.clone(); c.mul_u32_mut(k); is_u(&c, za * zk, 2);
    }
    fn u_div_u32(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        if forkb(k == 0) { expect_panic(); let _ = a.div_u32(k); return; }
        let q = a.div_u32(k); check(canon(&q), 1); let zq = zu(&q);
        check((zq * zk).le(za), 2); check(za.lt(zq * zk + zk), 3);
    }
    fn u_rem_u32(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        if forkb(k == 0) { expect_panic(); let _ = a.rem_u32(k); return; }
        let r = a.rem_u32(k); check(canon(&r), 1); is_rem(zu(&r), za, zk);
    }
    fn u_rem_u32_mut(n) {
        let (a, za) = ubz(n); let k = u32_(); let zk = Z::u(k as u128);
        assume(k != 0);
        let mut r = a.clone(); r.rem_u32_mut(k); check(canon(&r), 1); is_rem(zu(&r), za, zk);
    }
    fn u_div(n, m) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        if m == 1 && forkb(b.is_zero()) { expect_panic(); let _ = a.div(&b); return; }
        let q = a.div(&b); check(canon(&q), 1); check(zu(&q).eq(za.fdiv(zb)), 2);
        let mut c = a.clone(); c.div_mut(&b); check(canon(&c), 3); check(zu(&c).eq(za.fdiv(zb)), 4);
    }
    fn u_rem(n, m, v) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        if m == 1 && forkb(b.is_zero()) { expect_panic(); let _ = a.rem(&b); return; }
        let r = if v == 0 { a.rem(&b) } else { let mut c = a.clone(); c.rem_mut(&b); c };
        check(canon(&r), 1); check(zu(&r).eq(za - za.fdiv(zb) * zb), 2);
    }
    /// dividend fully symbolic (n limbs); divisor concrete: pattern p of m limbs
    fn u_div_c(n, m, p) {
        let (a, za) = ubz(n); let v = pat(m, p); let zb = Z::limbs(&v); let b = UBigInt::from_raw(v);
        let q = a.div(&b); check(canon(&q), 1); let zq = zu(&q);
        check((zq * zb).le(za), 2); check(za.lt(zq * zb + zb), 3);
    }
    /// one step of long division: recursive calls replaced by the induction hypothesis
    fn u_div_ind(n, m) {
        let (a, za) = ubz(n); let b = ubi(m); let zb = zun(&b);
        if m == 1 { assume(!b.is_zero()); }
        unsafe { crate::sums::DIV_OUTER = za.0; }
        let q = a.div(&b); check(canon(&q), 1); let zq = zu(&q);
        check((zq * zb).le(za), 2); check(za.lt(zq * zb + zb), 3);
    }
    /// the same with a concrete divisor (pattern p), dividend fully symbolic
    fn u_div_indc(n, m, p) {
        let (a, za) = ubz(n); let v = pat(m, p); let zb = Z::limbs(&v); let b = UBigInt::from_raw(v);
        unsafe { crate::sums::DIV_OUTER = za.0; }
        let q = a.div(&b); check(canon(&q), 1); let zq = zu(&q);
        check((zq * zb).le(za), 2); check(za.lt(zq * zb + zb), 3);
    }
    /// no contracts: dividend = pattern pa with symbolic limbs at i and j, concrete divisor
    fn u_div_2(n, pa, i, j, m, pb) {
        let mut w = pat(n, pa); w[i as usize] = u32_(); w[j as usize] = u32_(); if i + 1 == n || j + 1 == n { assume(w[n as usize - 1] != 0); }
        let za = Z::limbs(&w); let a = UBigInt::from_raw(w);
        let v = pat(m, pb); let zb = Z::limbs(&v); let b = UBigInt::from_raw(v);
        let q = a.div(&b); check(canon(&q), 1); let zq = zu(&q);
        check((zq * zb).le(za), 2); check(za.lt(zq * zb + zb), 3);
    }
    /// concrete dividend, divisor with one symbolic limb
    fn u_div_d1(n, pa, m, pb, i) {
        let w = pat(n, pa); let za = Z::limbs(&w); let a = UBigInt::from_raw(w);
        let mut v = pat(m, pb); v[i as usize] = u32_(); if i + 1 == m { assume(v[i as usize] != 0); }
        let zb = Z::limbs(&v); let b = UBigInt::from_raw(v);
        let q = a.div(&b); check(canon(&q), 1); let zq = zu(&q);
        check((zq * zb).le(za), 2); check(za.lt(zq * zb + zb), 3);
    }
    fn u_cmp(n, m) {
        let (a, za) = ubz(n); let (b, zb) = ubz(m);
        let (x, y) = (za, zb);
        check(a.lt(&b) == x.lt(y), 1); check(a.gt(&b) == y.lt(x), 2); check(a.leq(&b) == x.le(y), 3); check(a.geq(&b) == y.le(x), 4);
        check(UBigInt::eq(&a, &b) == x.eq(y), 5); check(a.neq(&b) == !x.eq(y), 6); check((a == b) == x.eq(y), 7);
        let c = a.comp(&b); check((c == Ordering::Less) == x.lt(y), 8); check((c == Ordering::Greater) == y.lt(x), 9);
        check(Ord::cmp(&a, &b) == c, 10); check(a.partial_cmp(&b) == Some(c), 11);
        check((a < b) == x.lt(y), 12); check((a >= b) == y.le(x), 13);
    }
    fn u_cmp_u32(n) {
        let (a, x) = ubz(n); let k = u32_(); let y = Z::u(k as u128);
        check(a.lt_u32(k) == x.lt(y), 1); check(a.gt_u32(k) == y.lt(x), 2); check(a.leq_u32(k) == x.le(y), 3); check(a.geq_u32(k) == y.le(x), 4);
        check(a.eq_u32(k) == x.eq(y), 5); check(a.neq_u32(k) == !x.eq(y), 6);
        let c = a.comp_u32(k); check((c == Ordering::Less) == x.lt(y), 8); check((c == Ordering::Greater) == y.lt(x), 9);
        check(a.is_zero() == x.eq(Z::of(0)), 10); check(a.is_one() == x.eq(Z::of(1)), 11);
    }
    fn u_shift(n, k) {
        let (a, x) = ubz(n); let p = Z::pow2(32 * k);
        is_u(&a.shift_left(k as usize), x * p, 1); let mut c = a.clone(); c.shift_left_mut(k as usize); is_u(&c, x * p, 2);
        is_u(&a.shift_right(k as usize), x.fdiv(p), 3); let mut c = a.clone(); c.shift_right_mut(k as usize); is_u(&c, x.fdiv(p), 4);
        if k <= n { let r = x - x.fdiv(p) * p; is_u(&a.slice_right(k as usize), r, 5); let mut c = a.clone(); c.slice_right_mut(k as usize); is_u(&c, r, 6); }
        else { expect_panic(); let _ = a.slice_right(k as usize); }
    }
    fn u_mul_pow2(n, e) {
        let (a, x) = ubz(n); let p = Z::pow2(e);
        is_u(&a.mul_pow2(e as u32), x * p, 1); let mut c = a.clone(); c.mul_pow2_mut(e as u32); is_u(&c, x * p, 2);
        is_u(&UBigInt::pow2(e as u32), p, 3); is_u(&UBigInt::exp2(e), p, 4);
    }
    fn u_rem_pow2(n, e) { let (a, x) = ubz(n); let p = Z::pow2(e); is_u(&a.rem_pow2(1 << e), x - x.fdiv(p) * p, 1); }
    fn u_log2(n) {
        let (a, x) = ubz(n); let r = a.log2(); check(canon(&r), 1); let v = r.into_raw(); check(v.len() == 1, 2);
        if forkb(x.eq(Z::of(0))) { check(v[0] == 0, 3); return; }
        let k = fork(v[0] as u64); check(k < 32 * n, 4); check(Z::pow2(k).le(x), 5); check(x.lt(Z::pow2(k + 1)), 6);
    }
    fn u_pow(n, e) {
        let (a, x) = ubz(n); let z = x.pow(e as u32);
        is_u(&a.pow_u32(e as u32), z, 1); let mut c = a.clone(); c.pow_u32_mut(e as u32); is_u(&c, z, 2);
    }
    fn u_from_dec(n) {
        let mut s = String::new();
        let mut z = Z::of(0);
        for _ in 0..n { let d = u8_(); assume(d < 10); s.push((d + b'0') as char); z = z * Z::of(10) + Z::u(d as u128); }
        let r = UBigInt::from_string(&s).unwrap();
        is_u(&r, z, 1);
    }
    fn u_to_dec(n) {
        let (a, za) = ubz(n);
        let s = a.to_string_dec();
        let mut z = Z::of(0);
        for c in s.as_bytes() { check(c.is_ascii_digit(), 1); z = z * Z::of(10) + Z::u((c - b'0') as u128); }
        check(z.eq(za), 2);
        check(s.len() == 1 || s.as_bytes()[0] != b'0', 3);
    }
    fn u_sqrt(n) {
        let (a, za) = ubz(n);
        let r = a.sqrt(); let z = zu(&r); check(canon(&r), 1);
        check((z * z).le(za), 2); check(za.lt((z + Z::of(1)) * (z + Z::of(1))), 3);
    }
}
