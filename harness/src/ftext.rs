//! F192 as text.
use crate::fp::{exact, fl, is_zero, BIAS};
use crate::sym::*;
use hmath::F192;

fn text(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// contracts for the code alphabet: digits 0..62 kept as consecutive bytes from '0' on (decided by g_decode, g_codebad)
#[no_mangle] pub fn sum_from_int(n: u8) -> u8 { n + 48 }
#[no_mangle] pub fn sum_to_int(c: u8) -> Result<u8, hmath::ConversionError> { if forkb(c < 48 || c >= 110) { Err(hmath::ConversionError::InvalidChar(c as char)) } else { Ok(c - 48) } }
fn lead(mut p: u64) -> Vec<u8> { let mut v = vec![]; while p > 0 { v.insert(0, (p % 10) as u8); p /= 10; } v }
/// the character of a digit (natively the real alphabet)
#[cfg(not(feature = "native"))] fn ch(d: u8) -> u8 { d + 48 }
#[cfg(feature = "native")] fn ch(d: u8) -> u8 { if d < 10 { b'0' + d } else if d < 36 { b'A' + d - 10 } else { b'a' + d - 36 } }
harness! {
    /// decimal integer of n digits, underscore after the digits in mask; pre: the leading digits (0: free)
    fn g_dec(n, mask, neg, pre) {
        let (mut z, mut v) = (Z::of(0), vec![]); if neg == 1 { v.push(b'-'); } let p = lead(pre);
        for i in 0..n { let d = if (i as usize) < p.len() { p[i as usize] } else { let d = u8_(); assume(d < 10); if i == 0 { assume(d > 0); } d }; v.push(b'0' + d); z = z * Z::of(10) + Z::u(d as u128); if i < 64 && mask >> i & 1 == 1 { v.push(b'_'); } }
        match text(v).parse::<F192>() { Ok(x) => exact(&x, neg == 1, z, BIAS, 1), Err(_) => check(false, 2) }
    }
    /// printing an integer of n digits (leading ones listed in pre) divided by 2^f: the exact decimal expansion
    fn g_show(n, neg, pre, f, w) {
        let p = lead(pre); let mut d = vec![]; let mut v = 0u64;
        for i in 0..n { let x = if (i as usize) < p.len() { p[i as usize] } else { let x = u8_(); assume(x < 10); if i == 0 { assume(x > 0); } x }; d.push(x); v = v * 10 + x as u64; }
        // v / 2^f = v 5^f / 10^f
        let mut x = F192::from(v); if f > 0 { x = x.shr(f as _); } if neg == 1 { x = x.neg(); }
        let s = if w == 1 { format!("{}", x) } else { x.to_approx_string() }; let mut b = s.into_bytes();
        if neg == 1 { check(b.first() == Some(&b'-'), 1); if b.first() != Some(&b'-') { return; } b.remove(0); }
        let (int, frac) = match b.iter().position(|c| forkb(*c == b'.')) { Some(k) => (b[..k].to_vec(), b[k + 1..].to_vec()), None => (b, vec![]) };
        check(!int.is_empty() && (int.len() == 1 || int[0] != b'0') && frac.len() <= f as usize && frac.last() != Some(&b'0'), 2); if frac.len() > f as usize { return; }
        let mut z = Z::of(0); for c in int.iter().chain(frac.iter()) { check(*c >= b'0' && *c <= b'9', 3); z = z * Z::of(10) + Z::u((*c - b'0') as u128); }
        check((z * Z::of(10).pow((f as usize - frac.len()) as u32)).eq(Z::u(v as u128) * Z::of(5).pow(f as u32)), 4);
    }
    /// n digits, the last f of them after the point (f = 0: no point), exponent ex - 1000 (0: none); relative error at most 2^-120
    fn g_exp(n, f, ex, neg, pre) {
        let (mut z, mut v) = (Z::of(0), vec![]); if neg == 1 { v.push(b'-'); } let p = lead(pre);
        if f == n { v.push(b'0'); }
        for i in 0..n { let d = if (i as usize) < p.len() { p[i as usize] } else { let d = u8_(); assume(d < 10); if i == 0 { assume(d > 0); } d }; if f > 0 && i == n - f { v.push(b'.'); } v.push(b'0' + d); z = z * Z::of(10) + Z::u(d as u128); }
        let mut k = -(f as i64); if ex > 0 { k += ex as i64 - 1000; v.push(if neg == 1 { b'E' } else { b'e' }); v.extend_from_slice((ex as i64 - 1000).to_string().as_bytes()); }
        let x = match text(v).parse::<F192>() { Ok(x) => x, Err(_) => { check(false, 1); return; } };
        check(!is_zero(&x), 2); if is_zero(&x) { return; } let r = fl(&x); check(r.neg == (neg == 1), 3);
        let e = fork(r.e); check(e > BIAS - 9000 && e < BIAS + 9000, 4); if !(e > BIAS - 9000 && e < BIAS + 9000) { return; }
        let t = Z::of(10).pow(k.unsigned_abs() as u32); let (mut a, mut b) = if k >= 0 { (r.z(), z * t) } else { (r.z() * t, z) };
        if e >= BIAS { a = a * Z::pow2(e - BIAS); } else { b = b * Z::pow2(BIAS - e); }
        let d = (a - b) * Z::pow2(120); check(d.le(b), 5); check(b.neg().le(d), 6);
    }
    /// 2^b base integer of n digits; letters per am
    fn g_base(b, n, neg, up, am) {
        let (mut z, mut v) = (Z::of(0), vec![]); if neg == 1 { v.push(b'-'); } v.push(b'0'); v.push(match (b, up) { (1, 0) => b'b', (1, _) => b'B', (3, 0) => b'o', (3, _) => b'O', (_, 0) => b'x', _ => b'X' });
        for i in 0..n { let d = u8_(); assume(d >> b == 0); if i == 0 { assume(d > 0); } let l = b == 4 && am >> i & 1 == 1; assume((d > 9) == l); v.push(if l { (if up == 1 { b'A' } else { b'a' }) + (d - 10) } else { b'0' + d }); z = z * Z::of(1 << b) + Z::u(d as u128); if i == 1 { v.push(b'_'); } }
        match text(v).parse::<F192>() { Ok(x) => exact(&x, neg == 1, z, BIAS, 1), Err(_) => check(false, 2) }
    }
    /// any n ASCII characters from a small alphabet that are no number are refused; zeros are zero
    fn g_any(n) {
        let mut v = vec![]; for _ in 0..n { let c = u8_(); assume(c < 128); v.push(c); }
        let w = v.clone(); let r = text(v).parse::<F192>();
        let t = if n > 0 && forkb(w[0] == b'-') { &w[1..] } else { &w[..] };
        if t.is_empty() { check(r.is_err(), 1); return; }
        if !forkb(t[0] >= b'0' && t[0] <= b'9') { check(r.is_err() , 2); return; }
        if t.iter().all(|c| forkb(*c >= b'0' && *c <= b'9')) && !forkb(t[0] == b'0') { let mut z = Z::of(0); for c in t { z = z * Z::of(10) + Z::u((*c - b'0') as u128); } match r { Ok(x) => exact(&x, t.len() < w.len(), z, BIAS, 3), Err(_) => check(false, 4) } return; }
        if t.len() == 1 { match r { Ok(x) => check(is_zero(&x), 5), Err(_) => check(false, 6) } return; }
        // after a first nonzero digit only digits, underscores, a point and an exponent may follow
        if !forkb(t[0] == b'0') { for c in &t[1..] { if forkb(*c == b'e' || *c == b'E') { return; } if !forkb((*c >= b'0' && *c <= b'9') || *c == b'_' || *c == b'.') { check(r.is_err(), 7); return; } } }
    }
    /// the number a word of 13 code digits stands for: e = first two digits and the half of the third, d the rest
    fn g_codeval(a, b, h) {
        let mut v = vec![ch(a as u8), ch(b as u8)]; let mut z = Z::of(0); let mut r = 0;
        for i in 0..11 { let d = u8_(); if i == 0 { assume(d < 31); r = d; v.push(ch(d + 31 * h as u8)); } else { assume(d < 62); v.push(ch(d)); z = z * Z::of(62) + Z::u(d as u128); } }
        if a == 61 && b == 60 && h == 0 { assume(r > 0); } let e = 124 * a as i64 + 2 * b as i64 + h as i64; let base = 26018280341918546944u128; let m = z * Z::of(31) + Z::u(r as u128) + Z::u(base);
        let exp = if e & 2 == 2 { (e + 2) / 4 } else { -((e + 2) / 4) };
        match F192::from_code13(&v) { Ok(x) => exact(&x, e & 1 == 1, m, (BIAS - 64).wrapping_add(exp as u64), 1), Err(_) => check(false, 2) }
    }
    fn g_code0() { let z = F192::ZERO.into_code13(); match z { Ok(c) => match F192::from_code13(&c) { Ok(r) => check(is_zero(&r), 1), Err(_) => check(false, 2) }, Err(_) => check(false, 3) } }
    /// code words of n characters come back unchanged; pat: two bits per character: 0 digit, 1 capital, 2 small letter
    fn g_decode(n, pat) {
        let mut v = vec![]; for i in 0..n { let d = u8_(); let (b, m) = match pat >> (2 * i) & 3 { 0 => (b'0', 10), 1 => (b'A', 26), _ => (b'a', 26) }; assume(d < m); if i == 0 && b == b'0' { assume(d > 0); } v.push(b + d); }
        if n == 13 { assume(!(v[0] == b'z' && v[1] == b'y')); }
        let r = match F192::from_code13(&v) { Ok(r) => r, Err(_) => { check(false, 1); return; } };
        match r.into_code13() { Ok(c) => { check(c.len() == v.len(), 2); if c.len() == v.len() { for i in 0..c.len() { check(c[i] == v[i], 3); } } } Err(_) => check(false, 4) }
    }
    /// the same over the 13 digits themselves (alphabet by contract); a: first digit
    fn g_recode(n, a) {
        let mut v = vec![ch(a as u8)]; for _ in 1..n { let d = u8_(); assume(d < 62); v.push(ch(d)); }
        let r = match F192::from_code13(&v) { Ok(r) => r, Err(_) => { check(false, 1); return; } };
        match r.into_code13() { Ok(c) => { check(c.len() == v.len(), 2); if c.len() == v.len() { for i in 0..c.len() { check(c[i] == v[i], 3); } } } Err(_) => check(false, 4) }
    }
    /// characters outside 0-9A-Za-z are refused, as are words that are too long
    fn g_codebad(n, i) {
        let mut v = vec![b'1'; n as usize]; if n <= 13 { let c = u8_(); assume(!((c >= b'0' && c <= b'9') || (c >= b'A' && c <= b'Z') || (c >= b'a' && c <= b'z'))); v[i as usize] = c; }
        check(F192::from_code13(&v).is_err(), 1);
    }
}
