//! Signed integers, executed directly (no contracts unless the job says so).
use crate::sym::*;
use crate::util::*;
use hmath::BigInt;
use std::cmp::Ordering;

fn sg(x: Z) -> bool { x.lt(Z::of(0)) }
fn zi(k: i32) -> Z { Z::of(k as i64) }
/// q is the quotient of a by b rounded toward zero: |a| = |q||b| + r, 0 <= r < |b|, sign of q right
fn is_tquo(q: Z, na: bool, aa: Z, nb: bool, ab: Z) {
    let (nq, aq) = if forkb(sg(q)) { (true, q.neg()) } else { (false, q) };
    check(aq.eq(aa.fdiv(ab)), 95);
    if !forkb(q.eq(Z::of(0))) { check(nq == (na != nb), 97); }
}
fn mag(z: Z, neg: bool) -> Z { if neg { z.neg() } else { z } }

harness! {
    /// op 0 add 1 sub 2 mul; n, m limbs; s, t signs
    fn b_arith(op, n, s, m, t) {
        let (a, x) = biz(n, s); let (b, y) = biz(m, t);
        let z = match op { 0 => x + y, 1 => x - y, _ => x * y };
        is_b(&match op { 0 => a.add(&b), 1 => a.sub(&b), _ => a.mul(&b) }, z, 1);
        let mut c = a.clone(); match op { 0 => c.add_mut(&b), 1 => c.sub_mut(&b), _ => c.mul_mut(&b) } is_b(&c, z, 2);
        check(zb(&a).eq(x), 3); check(zb(&b).eq(y), 4);
    }
    fn b_arith_i32(op, n, s) {
        let (a, x) = biz(n, s); let k = i32_(); let y = zi(k);
        let z = match op { 0 => x + y, 1 => x - y, _ => x * y };
        is_b(&match op { 0 => a.add_i32(k), 1 => a.sub_i32(k), _ => a.mul_i32(k) }, z, 1);
        let mut c = a.clone(); match op { 0 => c.add_i32_mut(k), 1 => c.sub_i32_mut(k), _ => c.mul_i32_mut(k) } is_b(&c, z, 2);
    }
    fn b_div(n, s, m, t, v) {
        let (a, x) = biz(n, s); let (b, y) = biz(m, t);
        if m == 1 && t == 0 && forkb(b.is_zero()) { expect_panic(); if v == 0 { let _ = a.div(&b); } else { let mut a = a; a.div_mut(&b); } return; }
        let q = if v == 0 { a.div(&b) } else { let mut c = a.clone(); c.div_mut(&b); c };
        check(canon_b(&q), 1); is_tquo(zb(&q), s == 1, mag(x, s == 1), t == 1, mag(y, t == 1));
    }
    fn b_div_i32(n, s, v) {
        let (a, x) = biz(n, s); let k = i32_();
        if forkb(k == 0) { expect_panic(); if v == 0 { let _ = a.div_i32(k); } else { let mut a = a; a.div_i32_mut(k); } return; }
        let t = forkb(k < 0);
        let q = if v == 0 { a.div_i32(k) } else { let mut c = a.clone(); c.div_i32_mut(k); c };
        check(canon_b(&q), 1); is_tquo(zb(&q), s == 1, mag(x, s == 1), t, Z::u(k.unsigned_abs() as u128));
    }
    /// remainder: sign of the dividend, magnitude below the divisor, congruent
    fn b_rem(n, s, m, t, v) {
        let (a, x) = biz(n, s); let (b, y) = biz(m, t);
        if m == 1 && t == 0 { assume(!b.is_zero()); }
        let r = if v == 0 { a.rem(&b) } else { let mut c = a.clone(); c.rem_mut(&b); c };
        check(canon_b(&r), 1);
        let (ar, ay, ax) = (mag(zb(&r), s == 1), mag(y, t == 1), mag(x, s == 1));
        check(ar.eq(ax - ax.fdiv(ay) * ay), 2);
    }
    fn b_rem_i32(n, s, v) {
        let (a, x) = biz(n, s); let k = i32_();
        if forkb(k == 0) { expect_panic(); if v == 0 { let _ = a.rem_i32(k); } else { let mut a = a; a.rem_i32_mut(k); } return; }
        let t = forkb(k < 0);
        let r = if v == 0 { a.rem_i32(k) } else { let mut c = a.clone(); c.rem_i32_mut(k); c };
        check(canon_b(&r), 1);
        let (ar, ay, ax) = (mag(zb(&r), s == 1), Z::u(k.unsigned_abs() as u128), mag(x, s == 1));
        check(ar.eq(ax - ax.fdiv(ay) * ay), 2);
    }
    fn b_un(n, s) {
        let (a, x) = biz(n, s); let ax = mag(x, s == 1);
        is_b(&a.neg(), x.neg(), 1); is_b(&a.abs(), ax, 2);
        let mut c = a.clone(); c.neg_mut(); is_b(&c, x.neg(), 3);
        let mut c = a.clone(); c.abs_mut(); is_b(&c, ax, 4);
        check(a.is_neg() == sg(x), 5); check(a.is_zero() == x.eq(Z::of(0)), 6); check(a.is_one() == x.eq(Z::of(1)), 7);
    }
    fn b_cmp(n, s, m, t) {
        let (a, x) = biz(n, s); let (b, y) = biz(m, t);
        check(a.lt(&b) == x.lt(y), 1); check(a.gt(&b) == y.lt(x), 2); check(a.leq(&b) == x.le(y), 3); check(a.geq(&b) == y.le(x), 4);
        check(BigInt::eq(&a, &b) == x.eq(y), 5); check(a.neq(&b) == !x.eq(y), 6); check((a == b) == x.eq(y), 7);
        let c = a.comp(&b); check((c == Ordering::Less) == x.lt(y), 8); check((c == Ordering::Greater) == y.lt(x), 9);
        check(Ord::cmp(&a, &b) == c, 10); check(a.partial_cmp(&b) == Some(c), 11);
        check((a < b) == x.lt(y), 12); check((a >= b) == y.le(x), 13);
    }
    fn b_cmp_i32(n, s) {
        let (a, x) = biz(n, s); let k = i32_(); let y = zi(k);
        check(a.lt_i32(k) == x.lt(y), 1); check(a.gt_i32(k) == y.lt(x), 2); check(a.leq_i32(k) == x.le(y), 3); check(a.geq_i32(k) == y.le(x), 4);
        let c = a.comp_i32(k); check((c == Ordering::Less) == x.lt(y), 8); check((c == Ordering::Greater) == y.lt(x), 9);
    }
    fn b_eq_i32(n, s) {
        let (a, x) = biz(n, s); let k = i32_(); let y = zi(k);
        check(a.eq_i32(k) == x.eq(y), 5); check(a.neq_i32(k) == !x.eq(y), 6);
    }
    fn b_shift(n, s, k) {
        let (a, x) = biz(n, s); let ax = mag(x, s == 1); let p = Z::pow2(32 * k); let g = |z: Z| mag(z, s == 1);
        is_b(&a.shift_left(k as usize), x * p, 1); let mut c = a.clone(); c.shift_left_mut(k as usize); is_b(&c, x * p, 2);
        is_b(&a.shift_right(k as usize), g(ax.fdiv(p)), 3); let mut c = a.clone(); c.shift_right_mut(k as usize); is_b(&c, g(ax.fdiv(p)), 4);
        if k <= n { let r = g(ax - ax.fdiv(p) * p); is_b(&a.slice_right(k as usize), r, 5); let mut c = a.clone(); c.slice_right_mut(k as usize); is_b(&c, r, 6); }
    }
    fn b_mul_pow2(n, s, e) {
        let (a, x) = biz(n, s); let p = Z::pow2(e);
        is_b(&a.mul_pow2(e as u32), x * p, 1); let mut c = a.clone(); c.mul_pow2_mut(e as u32); is_b(&c, x * p, 2);
        is_b(&BigInt::pow2(e as u32), p, 3); is_b(&BigInt::exp2(e), p, 4);
    }
    fn b_rem_pow2(n, s, e) {
        let (a, x) = biz(n, s); let p = Z::pow2(e); let ax = mag(x, s == 1);
        is_b(&a.rem_pow2(1 << e), mag(ax - ax.fdiv(p) * p, s == 1), 1);
    }
    fn b_pow(n, s, e) {
        let (a, x) = biz(n, s); let z = x.pow(e as u32);
        is_b(&a.pow_u32(e as u32), z, 1); let mut c = a.clone(); c.pow_u32_mut(e as u32); is_b(&c, z, 2);
    }
}
