//! Rationals as text.
use crate::lift::{bx, den, num, zv};
use crate::rlift::{qx, Q};
use crate::rconv::pos;
use crate::sym::*;
use hmath::{BigInt, Ratio};

fn text(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn divides(k: i64, z: Z) -> bool { (z.fdiv(Z::of(k)) * Z::of(k)).eq(z) }
/// n/d in lowest terms for denominators without prime factors other than 2 and 5
#[no_mangle] pub fn rs_new(d: BigInt, n: BigInt) -> Ratio {
    let (mut d, mut n) = (zv(&d), zv(&n));
    if forkb(n.eq(Z::of(0))) { return qx(Q { n: Z::of(0), d: Z::of(1) }); }
    for k in [2, 5] { while forkb(divides(k, d)) && forkb(divides(k, n)) { d = d.fdiv(Z::of(k)); n = n.fdiv(Z::of(k)); } }
    qx(Q { n, d })
}
/// floor(2^32 log2 |a|): any value consistent with the number of bits
#[no_mangle] pub fn lift_log2_accurate(a: &BigInt) -> BigInt {
    let k = zv(&crate::rconv::lift_log2(a)); let f = u32_(); bx(k * Z::pow2(32) + Z::u(f as u128))
}
/// decimal digits of an integer below 10^20
#[no_mangle] pub fn lift_to_string_dec(a: &BigInt) -> String {
    let z = zv(a); let neg = forkb(z.lt(Z::of(0))); let mut z = if neg { z.neg() } else { z };
    let mut n = 1; let mut p = Z::of(10); while !forkb(z.lt(p)) { n += 1; p = p * Z::of(10); }
    let mut v = vec![0u8; n]; for i in 0..n { let q = z.fdiv(Z::of(10)); v[n - 1 - i] = b'0' + (z - q * Z::of(10)).low128() as u8; z = q; }
    if neg { v.insert(0, b'-'); } text(v)
}
fn digits(n: u64, z: &mut Z, v: &mut Vec<u8>, mask: u64, lead: bool) { for i in 0..n { let d = u8_(); assume(d < 10); if lead && i == 0 && n > 1 { assume(d > 0); } v.push(b'0' + d); *z = *z * Z::of(10) + Z::u(d as u128); if mask >> i & 1 == 1 { v.push(b'_'); } } }
fn p10(k: u64) -> Z { let mut z = Z::of(1); for _ in 0..k { z = z * Z::of(10); } z }

harness! {
    /// [-] i digits [ . f digits ] [ e [-] x ]; dot: 1 has a point; ex: 0 none, else exponent ex - 1000; up: capital E
    fn s_parse(i, dot, f, ex, neg, up, k) {
        let (mut z, mut v) = (Z::of(0), vec![]); if neg == 1 { v.push(b'-'); }
        digits(i, &mut z, &mut v, if k == 9 { 1 } else { 0 }, true); if dot == 1 { v.push(b'.'); if k == 8 { v.push(b'_'); } digits(f, &mut z, &mut v, if k == 9 { 2 } else if k == 8 { 1 } else { 0 }, false); }
        let mut e = 0i64;
        if ex > 0 { e = ex as i64 - 1000; v.push(if up == 1 { b'E' } else { b'e' }); v.extend_from_slice(e.to_string().as_bytes()); }
        let s = text(v); let r = match k { 1 => s.parse::<Ratio>(), 2 => Ratio::try_from(s.as_str()), 3 => Ratio::try_from(s), _ => Ratio::from_string(&s) };
        let r = match r { Ok(r) => r, Err(_) => { check(false, 1); return; } };
        let (n, d) = (num(&r), den(&r)); if neg == 1 { z = z.neg(); }
        // z * 10^(e - f)
        let e = e - if dot == 1 { f as i64 } else { 0 };
        check(Z::of(0).lt(d), 2); check(if e >= 0 { n.eq(z * p10(e as u64) * d) } else { (n * p10(e.unsigned_abs())).eq(z * d) }, 3);
        for k in [2, 5] { if forkb(divides(k, d)) { check(!divides(k, n), 4); } }
        if forkb(z.eq(Z::of(0))) { check(d.eq(Z::of(1)), 5); }
    }
    /// at most w characters, truncated toward zero: value n/d of bn and bd bits
    fn s_approx(bn, bd, neg, w, c) {
        let (n, d) = (pos(bn), pos(bd)); if c > 0 { assume(d.eq(Z::of(c as i64))); } let (n, d) = crate::rconv::red(n, d); let d = if c > 0 && cfg!(not(feature = "native")) { crate::rconv::hint(Z::of(c as i64), bd - 1); Z::of(c as i64) } else { d }; let r = qx(Q { n: if neg == 1 { n.neg() } else { n }, d });
        let s = if w == 100 { r.to_string() } else { r.to_approx_string(w as usize) }; let w = if w == 100 { 12 } else { w.max(6) } as usize; let mut b = s.into_bytes();
        check(b.len() <= w, 1);
        if neg == 1 { check(b.first() == Some(&b'-'), 2); b.remove(0); }
        let dot = b.iter().position(|c| forkb(*c == b'.')); let il = dot.unwrap_or(b.len());
        check(il > 0 && (il == 1 || b[0] != b'0'), 3); if let Some(p) = dot { check(p + 1 < b.len() && b[b.len() - 1] != b'0', 4); }
        if b.iter().any(|c| forkb(*c == b'e')) { cover(1); return; } // exponent notation: outside
        let mut z = Z::of(0); for c in &b[..il] { check(*c >= b'0' && *c <= b'9', 5); z = z * Z::of(10) + Z::u((*c - b'0') as u128); }
        let q = n.fdiv(d); check(z.eq(q), 7);
        let full = w.saturating_sub(il + 1 + neg as usize); let fr: &[u8] = if let Some(p) = dot { &b[p + 1..] } else { &[] }; check(fr.len() <= full, 6); if fr.len() > full { return; }
        // long division, digit by digit; what is not printed is zero
        let mut r = n - q * d;
        for i in 0..full { r = r * Z::of(10); let g = r.fdiv(d); if i < fr.len() { check(fr[i] >= b'0' && fr[i] <= b'9', 5); check(g.eq(Z::u((fr[i] - b'0') as u128)), 8); } else { check(g.eq(Z::of(0)), 9); } r = r - g * d; }
    }
    /// "n/d", or "n" for an integer; one-limb parts
    fn s_ratio(neg, w) {
        let (n, d) = (u32_(), u32_()); assume(d > 0 && n > 0); if w == 1 { assume(d == 1); } else { assume(d > 1); }
        let r = Ratio::from_raw(vec![d], false, vec![n], neg == 1); let mut b = r.to_ratio_string().into_bytes();
        if neg == 1 { check(b.first() == Some(&b'-'), 1); b.remove(0); }
        let g = |s: &[u8], v: u32| { let mut z = Z::of(0); check(!s.is_empty() && (s.len() == 1 || s[0] != b'0'), 2); for c in s { check(*c >= b'0' && *c <= b'9', 3); z = z * Z::of(10) + Z::u((*c - b'0') as u128); } check(z.eq(Z::u(v as u128)), 4); };
        match b.iter().position(|c| forkb(*c == b'/')) { Some(p) => { check(w == 0, 5); g(&b[..p], n); g(&b[p + 1..], d); } None => { check(w == 1, 6); g(&b, n); } }
    }
}
