//! Rationals over lifted integers (see lift.rs).
use crate::lift::*;
use crate::sym::*;
use hmath::Ratio;
use std::cmp::Ordering;

fn o(k: i64) -> Z { Z::of(k) }
/// gcd(n + k*d, d) = gcd(n, d): stated for one result
fn lemma_shift(n: Z, d: Z) { assume(gcd(n, d).eq(o(1))); }

harness! {
    /// op: 0 add, 1 sub, 2 mul, 3 div; v: 0 by value, 1 in place
    fn r_bin(op, v) {
        let (a, an, ad) = rat(); let (b, bn, bd) = rat();
        let (n, d) = match op { 0 => (an * bd + bn * ad, ad * bd), 1 => (an * bd - bn * ad, ad * bd), 2 => (an * bn, ad * bd), _ => {
            if forkb(bn.eq(o(0))) { (o(0), o(0)) } else if forkb(bn.lt(o(0))) { (an * bd.neg(), (ad * bn).neg()) } else { (an * bd, ad * bn) } } };
        if op == 3 && forkb(bn.eq(o(0))) { expect_panic(); if v == 0 { let _ = a.div(&b); } else { let mut a = a; a.div_mut(&b); } return; }
        let r = if v == 0 { match op { 0 => a.add(&b), 1 => a.sub(&b), 2 => a.mul(&b), _ => a.div(&b) } }
            else { let mut a = a; match op { 0 => a.add_mut(&b), 1 => a.sub_mut(&b), 2 => a.mul_mut(&b), _ => a.div_mut(&b) } a };
        is_r(&r, n, d, 1);
    }
    /// the same with an integer on the right; t: 0 BigInt, 1 i32
    fn r_int(op, v, t) {
        let (a, an, ad) = rat();
        let (bi, k, bz) = if t == 0 { let z = Z::var(); (bx(z), 0, z) } else { let k = i32_(); (bx(o(0)), k, Z::of(k as i64)) };
        if op == 3 && forkb(bz.eq(o(0))) {
            expect_panic();
            let mut a = a;
            match (v, t) { (0, 0) => { let _ = a.div_bi(&bi); } (1, 0) => a.div_bi_mut(&bi), (0, _) => { let _ = a.div_i32(k); } _ => a.div_i32_mut(k) }
            return;
        }
        let (n, d) = match op { 0 => (an + bz * ad, ad), 1 => (an - bz * ad, ad), 2 => (an * bz, ad), _ => if forkb(bz.lt(o(0))) { (an.neg(), (ad * bz).neg()) } else { (an, ad * bz) } };
        let r = match (v, t) {
            (0, 0) => match op { 0 => a.add_bi(&bi), 1 => a.sub_bi(&bi), 2 => a.mul_bi(&bi), _ => a.div_bi(&bi) },
            (0, _) => match op { 0 => a.add_i32(k), 1 => a.sub_i32(k), 2 => a.mul_i32(k), _ => a.div_i32(k) },
            (_, 0) => { let mut a = a; match op { 0 => a.add_bi_mut(&bi), 1 => a.sub_bi_mut(&bi), 2 => a.mul_bi_mut(&bi), _ => a.div_bi_mut(&bi) } a }
            _ => { let mut a = a; match op { 0 => a.add_i32_mut(k), 1 => a.sub_i32_mut(k), 2 => a.mul_i32_mut(k), _ => a.div_i32_mut(k) } a }
        };
        // number theory used: gcd(n + k d, d) = gcd(n, d); coprimality of products of coprime cofactors
        if op < 2 { lemma_shift(n, d); }
        if op == 2 { let g = gcd(ad, bz); if !forkb(bz.eq(o(0))) { assume(o(1).le(g)); let (p, q) = (bz.fdiv(g), ad.fdiv(g)); assume(gcd(an * p, q).eq(o(1))); assume(!g.eq(o(1)) | gcd(an * bz, ad).eq(o(1))); assume((p * g).eq(bz)); assume((q * g).eq(ad)); } }
        if op == 3 { let g = gcd(an, bz); if !forkb(an.eq(o(0))) { assume(o(1).le(g)); let (p, q) = (bz.fdiv(g), an.fdiv(g)); assume(gcd(q, ad * p).eq(o(1))); assume(!g.eq(o(1)) | gcd(an, ad * bz).eq(o(1))); assume((p * g).eq(bz)); assume((q * g).eq(an)); } }
        is_r(&r, n, d, 1);
    }
    fn r_un(op) {
        let (a, n, d) = rat();
        let neg = forkb(n.lt(o(0)));
        let mut m = a.clone();
        match op {
            0 => { is_r(&a.neg(), n.neg(), d, 1); m.neg_mut(); is_r(&m, n.neg(), d, 2); }
            1 => { let x = if neg { n.neg() } else { n }; is_r(&a.abs(), x, d, 1); m.abs_mut(); is_r(&m, x, d, 2); }
            2 => { if forkb(n.eq(o(0))) { expect_panic(); let _ = a.reci(); return; }
                   let (x, y) = if neg { (d.neg(), n.neg()) } else { (d, n) }; is_r(&a.reci(), x, y, 1); m.reci_mut(); is_r(&m, x, y, 2); }
            3 => { check(a.is_neg() == n.lt(o(0)), 1); check(a.is_zero() == n.eq(o(0)), 2); check(a.is_one() == (n.eq(d)), 3); check(a.is_integer() == d.eq(o(1)), 4); }
            _ => {}
        }
    }
    fn r_cmp() {
        let (a, an, ad) = rat(); let (b, bn, bd) = rat();
        let (x, y) = (an * bd, bn * ad);
        // equal values have the same canonical numerator and denominator
        let same = x.eq(y);
        assume(same == (an.eq(bn) & ad.eq(bd)));
        check((a == b) == same, 1);
        check(a.lt(&b) == x.lt(y), 2); check(a.gt(&b) == y.lt(x), 3); check(a.leq(&b) == x.le(y), 4); check(a.geq(&b) == y.le(x), 5);
        check(a.neq(&b) == !same, 6);
    }
    fn r_ord() {
        let (a, an, ad) = rat(); let (b, bn, bd) = rat();
        let (x, y) = (an * bd, bn * ad);
        let c = a.comp(&b);
        check((c == Ordering::Less) == x.lt(y), 1); check((c == Ordering::Greater) == y.lt(x), 2);
        check(Ord::cmp(&a, &b) == c, 3); check(a.partial_cmp(&b) == Some(c), 4);
    }
    fn r_cmp_i32(w) {
        let (a, n, d) = rat(); let k = i32_(); let y = d * Z::of(k as i64);
        match w {
            0 => { check(a.lt_i32(k) == n.lt(y), 1); check(a.gt_i32(k) == y.lt(n), 2); check(a.leq_i32(k) == n.le(y), 3); check(a.geq_i32(k) == y.le(n), 4);
                let c = a.comp_i32(k); check((c == Ordering::Less) == n.lt(y), 7); check((c == Ordering::Greater) == y.lt(n), 8); }
            1 => { let e = d.eq(o(1)) & n.eq(Z::of(k as i64)); check(a.eq_i32(k) == e, 5); check(a.neq_i32(k) == !e, 6); }
            _ => { check(a.lt_one() == n.lt(d), 9); check(a.gt_one() == d.lt(n), 10); }
        }
    }
    /// floor, round (half away from zero), truncation, fraction
    fn r_round(op) {
        let (a, n, d) = rat();
        let neg = forkb(n.lt(o(0)));
        let t = if neg { n.neg().fdiv(d).neg() } else { n.fdiv(d) };
        lemma_shift(n - t * d, d); assume(!(n - t * d).eq(o(0)) | gcd(n - t * d, d).eq(d));
        match op {
            0 => { let f = zv(&a.floor_bi()); check((f * d).le(n), 1); check(n.lt(f * d + d), 2); let g = a.floor(); check(den(&g).eq(o(1)), 3); check(num(&g).eq(f), 4); }
            1 => { let f = zv(&a.round_bi()); let e = (n - f * d) * o(2); // |a - f| <= 1/2, ties away from zero
                if neg { check(d.neg().lt(e), 1); check(e.le(d), 2); } else { check(d.neg().le(e), 1); check(e.lt(d), 2); }
                let g = a.round(); check(den(&g).eq(o(1)), 3); check(num(&g).eq(f), 4); }
            2 => { check(zv(&a.truncate_bi()).eq(t), 1); let g = a.truncate(); is_r(&g, t, o(1), 2); let mut m = a.clone(); m.truncate_mut(); is_r(&m, t, o(1), 3); }
            _ => { is_r(&a.frac(), n - t * d, d, 1); let mut m = a.clone(); m.frac_mut(); is_r(&m, n - t * d, d, 2);
                let (x, y) = a.truncate_and_frac(); check(zv(&x).eq(t), 3); is_r(&y, n - t * d, d, 4); }
        }
    }
    fn r_pow(e, neg) {
        let (a, n, d) = rat(); let k = if neg == 1 { -(e as i32) } else { e as i32 };
        let (pn, pd) = (n.pow(e as u32), d.pow(e as u32));
        assume(gcd(pn, pd).eq(o(1)));
        if neg == 1 && forkb(n.eq(o(0))) { expect_panic(); let _ = a.pow_i32(k); return; }
        let (x, y) = if neg == 1 { if forkb(pn.lt(o(0))) { (pd.neg(), pn.neg()) } else { (pd, pn) } } else { (pn, pd) };
        is_r(&a.pow_i32(k), x, y, 1);
        let mut m = a.clone(); m.pow_i32_mut(k); is_r(&m, x, y, 2);
    }
    /// construction from any numerator and nonzero denominator
    fn r_new() {
        let n = Z::var(); let d = Z::var(); assume(!d.eq(o(0)));
        let r = Ratio::from_denom_and_numer(bx(d), bx(n));
        if forkb(d.lt(o(0))) { is_r(&r, n.neg(), d.neg(), 1); } else { is_r(&r, n, d, 1); }
    }
    fn r_new_i32() {
        let (d, n) = (i32_(), i32_()); assume(d != 0); 
        let (zd, zn) = (Z::of(d as i64), Z::of(n as i64));
        let r = Ratio::from_denom_and_numer_i32(d, n);
        let (rn, rd) = (num(&r), den(&r));
        check(o(0).lt(rd), 1); check((rn * zd).eq(zn * rd), 2);
        if forkb(n == 0) { check(rd.eq(o(1)), 3); } else { let g = gcd(zd, zn); assume(g.eq(gcd(zn, zd))); check((rd * g).eq(if forkb(d < 0) { zd.neg() } else { zd }), 4); }
    }
    fn r_common() {
        let (a, an, ad) = rat(); let (b, bn, bd) = rat();
        let (x, y, w) = hmath::common_denom(&a, &b); let (x, y, w) = (zv(&x), zv(&y), zv(&w));
        check(o(0).lt(w), 1); check((x * ad).eq(an * w), 2); check((y * bd).eq(bn * w), 3);
    }
}
