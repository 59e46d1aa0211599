//! Scientific notation of integers, and polynomials and matrices as text.
use crate::sym::*;
use crate::util::*;
use hmath::{BigInt, Matrix, Polynomial, Ratio, UBigInt};

/// a decimal digit
fn dig(lo: u8) -> u8 { let d = u8_(); assume(d >= lo && d <= 9); d }
/// `s` is the text `w` (characters of either may be symbolic)
fn same(s: &str, w: &[u8], id: u32) { let b = s.as_bytes(); check(b.len() == w.len(), id); if b.len() == w.len() { for i in 0..w.len() { check(b[i] == w[i], id + 1); } } }
/// scientific notation of a number with the leading digits d, e more digits behind the first one, of which at most k are shown
fn sci(d: &[u8], e: usize, k: usize, neg: bool) -> Vec<u8> {
    let mut n = d.len().min(k); while n > 1 && forkb(d[n - 1] == 0) { n -= 1; }
    let mut w = vec![]; if neg { w.push(b'-'); } w.push(d[0] + b'0'); if n > 1 { w.push(b'.'); for x in &d[1..n] { w.push(x + b'0'); } }
    w.push(b'e'); w.extend(e.to_string().into_bytes()); w
}
fn show(x: UBigInt, k: u64, via: u64) -> String { match via { 0 => x.to_scientific_notation(k as usize), 1 => format!("{:e}", x), 2 => BigInt::from_ubi(x, true).to_scientific_notation(k as usize), 3 => format!("{:e}", BigInt::from_ubi(x, true)), _ => BigInt::from_ubi(x, false).to_scientific_notation(k as usize) } }
/// a coefficient: sign, numerator in 1..=m, over the denominator d (coprime to all of them); None: zero
fn coeff(d: i32, m: u8) -> (Ratio, Option<(bool, u8)>) {
    let n = u8_(); assume(n <= m); if forkb(n == 0) { return (Ratio::zero(), None); }
    let neg = forkb(u8_() == 0); let v = n as i32;
    (Ratio::from_denom_and_numer_i32(d, if neg { -v } else { v }), Some((neg, n)))
}
fn put(w: &mut Vec<u8>, s: &str) { w.extend_from_slice(s.as_bytes()); }
fn num(w: &mut Vec<u8>, n: u8, d: i32) { w.push(n + b'0'); if d != 1 { put(w, "/"); put(w, &d.to_string()); } }
harness! {
    /// n digits, the first p of them arbitrary and the others zero except the last one
    fn y_sci(n, p, k, via) {
        let mut d = vec![dig(1)]; for i in 1..n { d.push(if i < p || i + 1 == n { dig(0) } else { 0 }); }
        let mut v: u64 = 0; for x in &d { v = v * 10 + *x as u64; }
        let s = show(UBigInt::from_u64(v), k, via); let k = if via == 1 || via == 3 { 5 } else { k };
        same(&s, &sci(&d, n as usize - 1, k as usize, via == 2 || via == 3), 1);
    }
    fn y_sci0(via) { same(&show(UBigInt::zero(), 5, if via == 1 { 1 } else { 0 }), b"0e0", 1); if via == 2 { same(&BigInt::zero().to_scientific_notation(3), b"0e0", 3); } }
    /// a number of n limbs: the leading digits of t, then e digits worth anything, of which at most k leading ones are shown; the s top limbs symbolic
    fn y_scil(n, t, e, k, via, s) {
        let mut v = pat(n, 11); for i in (n - s)..n { v[i as usize] = u32_(); } assume(v[n as usize - 1] != 0); let z = Z::limbs(&v); let d: Vec<u8> = t.to_string().bytes().map(|c| c - b'0').collect();
        let m = Z::of(10).pow(e as u32); let l = z - Z::of(t as i64) * m; assume(Z::of(0).le(l)); assume(l.lt(m));
        let s = show(UBigInt::from_raw(v), k, via);
        same(&s, &sci(&d, d.len() + e as usize - 1, k as usize, via == 2), 1);
    }
    /// n coefficients with denominator d
    fn y_poly(n, d, m) {
        let c: Vec<_> = (0..n).map(|_| coeff(d as i32, m as u8)).collect();
        let s = Polynomial::from_vec(c.iter().map(|x| x.0.clone()).collect()).to_ratio_string();
        let mut w = vec![];
        for (i, x) in c.iter().enumerate() {
            let e = n as usize - 1 - i;
            if let Some((neg, v)) = x.1 {
                let t = match (w.is_empty(), neg) { (true, false) => "", (true, true) => "-", (false, false) => " + ", (false, true) => " - " }; put(&mut w, t);
                if e == 0 { num(&mut w, v, d as i32); }
                else { if !(d == 1 && forkb(v == 1)) { num(&mut w, v, d as i32); put(&mut w, " * "); } put(&mut w, "x"); if e > 1 { put(&mut w, "^"); put(&mut w, &e.to_string()); } }
            }
        }
        if w.is_empty() { put(&mut w, "0"); }
        same(&s, &w, 1);
    }
    /// r rows of c entries
    fn y_mat(r, c, d, m) {
        let e: Vec<Vec<_>> = (0..r).map(|_| (0..c).map(|_| coeff(d as i32, m as u8)).collect()).collect();
        let s = Matrix::from_vec(e.iter().map(|v| v.iter().map(|x| x.0.clone()).collect()).collect()).unwrap().to_ratio_string();
        let mut w = vec![b'['];
        for (i, v) in e.iter().enumerate() {
            if i > 0 { put(&mut w, ", "); } put(&mut w, "[");
            for (j, x) in v.iter().enumerate() { if j > 0 { put(&mut w, ", "); } match x.1 { None => put(&mut w, "0"), Some((neg, n)) => { if neg { put(&mut w, "-"); } num(&mut w, n, d as i32); } } }
            put(&mut w, "]");
        }
        put(&mut w, "]"); same(&s, &w, 1);
    }
}
