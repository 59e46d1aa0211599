//! Integers as text: parsing and printing.
use crate::sym::*;
use crate::util::*;
use hmath::{BigInt, ConversionError, UBigInt};

fn text(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn ascii() -> u8 { let c = u8_(); assume(c < 128); c }
/// digit of a character in a base up to 16, case split into character classes
fn digit(c: u8, base: u32) -> Option<Z> {
    let z = |k: u8| Z::u((c - k) as u128);
    let d = if forkb(c >= b'0' && c <= b'9') { let d = c - b'0'; if base < 10 && forkb(d as u32 >= base) { return None; } z(b'0') }
        else if base == 16 && forkb(c >= b'a' && c <= b'f') { z(b'a' - 10) } else if base == 16 && forkb(c >= b'A' && c <= b'F') { z(b'A' - 10) } else { return None };
    Some(d)
}
/// what a natural number literal means: Ok(Some(v)) a number, Ok(None) not a number, Err(()) unspecified
fn nat(s: &[u8]) -> Result<Option<Z>, ()> {
    if s.is_empty() { return Ok(None); }
    if !forkb(s[0] >= b'0' && s[0] <= b'9') { return Ok(None); }
    let (base, from) = if forkb(s[0] == b'0') {
        let mut i = 1; while i < s.len() && forkb(s[i] == b'_') { i += 1; }
        if i == s.len() { return Ok(Some(Z::of(0))); }
        let c = s[i];
        let b = if forkb(c == b'x' || c == b'X') { 16 } else if forkb(c == b'b' || c == b'B') { 2 } else if forkb(c == b'o' || c == b'O') { 8 } else { return Ok(None) };
        if i > 1 { return Err(()); }
        (b, i + 1)
    } else { (10, 0) };
    let (mut z, mut any) = (Z::of(0), false);
    for &c in &s[from..] {
        if forkb(c == b'_') { continue; }
        match digit(c, base) { Some(d) => { any = true; z = z * Z::of(base as i64) + d } None => return Ok(None) }
    }
    if any { Ok(Some(z)) } else if s.len() > from { Err(()) } else { Ok(None) }
}
fn same_u(r: Result<UBigInt, ConversionError>, w: Result<Option<Z>, ()>, id: u32) {
    match w { Err(()) => {} Ok(None) => check(r.is_err(), id * 10 + 3), Ok(Some(z)) => match r { Ok(x) => is_u(&x, z, id), Err(_) => check(false, id * 10 + 4) } }
}
fn same_b(r: Result<BigInt, ConversionError>, w: Result<Option<Z>, ()>, id: u32) {
    match w { Err(()) => {} Ok(None) => check(r.is_err(), id * 10 + 3), Ok(Some(z)) => match r { Ok(x) => is_b(&x, z, id), Err(_) => check(false, id * 10 + 4) } }
}
fn group(s: &[u8]) -> Z { let mut z = Z::of(0); for c in s { check(*c >= b'0' && *c <= b'9', 9); z = z * Z::of(10) + Z::u((*c - b'0') as u128); } z }
#[allow(dead_code)]
fn dec(s: &[u8], id: u32) -> Z { let mut z = Z::of(0); check(!s.is_empty(), id * 10 + 5); for c in s { check(*c >= b'0' && *c <= b'9', id * 10 + 6); z = z * Z::of(10) + Z::u((*c - b'0') as u128); } if s.len() > 1 { check(s[0] != b'0', id * 10 + 7); } z }
/// text in base 2, 8 or 16 without leading zeros
fn pow2text(s: &[u8], bits: u32, id: u32) -> Z {
    let mut z = Z::of(0); check(!s.is_empty(), id * 10 + 5); let m = 1i64 << bits;
    for &c in s { check((c >= b'0') & (c <= b'9') | (c >= b'a') & (c <= b'f'), id * 10 + 6); let d = (c & 15) + 9 * (c >> 6); check((d as i64) < m, id * 10 + 6); z = z * Z::of(m) + Z::u(d as u128); }
    if s.len() > 1 { check(s[0] != b'0', id * 10 + 7); } z
}
fn strip(s: String, neg: bool, pre: &str, id: u32) -> Vec<u8> {
    let mut b = s.into_bytes(); if neg { check(b.first() == Some(&b'-'), id * 10 + 1); b.remove(0); }
    for c in pre.as_bytes() { check(b.first() == Some(c), id * 10 + 2); if b.is_empty() { return b; } b.remove(0); } b
}

harness! {
    /// any n ASCII characters
    fn t_any_u(n) { let v: Vec<u8> = (0..n).map(|_| ascii()).collect(); let w = nat(&v); let s = text(v); same_u(UBigInt::from_string(&s), w, 1); }
    fn t_any_b(n) {
        let v: Vec<u8> = (0..n).map(|_| ascii()).collect();
        let neg = !v.is_empty() && forkb(v[0] == b'-'); let w = nat(&v[neg as usize..]).map(|o| o.map(|z| if neg { z.neg() } else { z }));
        let s = text(v); same_b(BigInt::from_string(&s), w, 1);
    }
    /// decimal text of n digits; underscores after the digits in mask; k: entry point
    fn t_dec(n, mask, neg, k) {
        let mut v = vec![]; let mut z = Z::of(0);
        if neg == 1 { v.push(b'-'); }
        for i in 0..n { let d = u8_(); assume(d < 10); if i == 0 && n > 1 { assume(d > 0); } v.push(b'0' + d); z = z * Z::of(10) + Z::u(d as u128); if i < 64 && mask >> i & 1 == 1 { v.push(b'_'); } }
        let s = text(v); let w = Ok(Some(if neg == 1 { z.neg() } else { z }));
        match k { 0 => same_u(UBigInt::from_string(&s), w, 1), 1 => same_u(s.parse(), w, 1), 2 => same_u(UBigInt::try_from(s.as_str()), w, 1), 3 => same_u(UBigInt::try_from(s), w, 1),
            4 => same_b(BigInt::from_string(&s), w, 1), 5 => same_b(s.parse(), w, 1), 6 => same_b(BigInt::try_from(s.as_str()), w, 1), _ => same_b(BigInt::try_from(s), w, 1) }
    }
    /// n digits of base 16, 8 or 2 (c: letter case of prefix and digits; am: which hexadecimal digits are letters)
    fn t_base(base, n, c, neg, mask, am) {
        let mut v = vec![]; let mut z = Z::of(0);
        if neg == 1 { v.push(b'-'); } v.push(b'0'); let l = match base { 16 => b'x', 8 => b'o', _ => b'b' }; v.push(if c == 1 { l - 32 } else { l });
        for i in 0..n { let d = u8_(); assume((d as u64) < base); let alpha = base == 16 && i < 64 && am >> i & 1 == 1; if base == 16 { assume((d > 9) == alpha); } v.push(if alpha { if c == 1 { b'A' - 10 + d } else { b'a' - 10 + d } } else { b'0' + d }); z = z * Z::of(base as i64) + Z::u(d as u128); if i < 64 && mask >> i & 1 == 1 { v.push(b'_'); } }
        let s = text(v); if neg == 0 { same_u(UBigInt::from_string(&s), Ok(Some(z)), 1); }
        same_b(BigInt::from_string(&s), Ok(Some(if neg == 1 { z.neg() } else { z })), 2);
    }
    /// decimal printing of n limbs; the 9-digit group i (from the bottom) has the number of digits in the i-th decimal digit of g (0: free)
    fn t_to_dec(n, neg, k, g) {
        let v = limbs(n); if neg == 1 && n == 1 { assume(v[0] != 0); } let z = Z::limbs(&v);
        let (mut q, mut h) = (z, g); let nine = Z::of(1_000_000_000);
        while h > 0 { let d = h % 10; if d > 0 { let r = q - q.fdiv(nine) * nine; assume(r.lt(Z::of(10i64.pow(d as u32)))); if d > 1 { assume(Z::of(10i64.pow(d as u32 - 1)).le(r)); } } q = q.fdiv(nine); h /= 10; }
        let s = match k { 0 => UBigInt::from_raw(v).to_string_dec(), 1 => format!("{}", UBigInt::from_raw(v)), 2 => BigInt::from_raw(v, neg == 1).to_string_dec(), _ => format!("{}", BigInt::from_raw(v, neg == 1)) };
        let b = strip(s, neg == 1, "", 1); check(!b.is_empty() && (b.len() == 1 || b[0] != b'0'), 2);
        // group by group of nine digits from the bottom
        let (mut q, mut e) = (z, b.len());
        while e > 9 { let h = q.fdiv(nine); check(group(&b[e - 9..e]).eq(q - h * nine), 3); q = h; e -= 9; }
        check(group(&b[..e]).eq(q), 4);
    }
    /// printing in base 2^b of n limbs, p: with prefix; low limbs other than the top one are restricted to at least f leading digits' worth
    fn t_to_pow2(n, b, neg, k, p) {
        let v = limbs(n); if neg == 1 && n == 1 { assume(v[0] != 0); } let z = Z::limbs(&v); let p = p == 1;
        let s = match (k, b) { (0, 4) => UBigInt::from_raw(v).to_string_hex(p), (0, 3) => UBigInt::from_raw(v).to_string_oct(p), (0, _) => UBigInt::from_raw(v).to_string_bin(p),
            (1, 4) => BigInt::from_raw(v, neg == 1).to_string_hex(p), (1, 3) => BigInt::from_raw(v, neg == 1).to_string_oct(p), (1, _) => BigInt::from_raw(v, neg == 1).to_string_bin(p),
            (2, 4) => if p { format!("{:#x}", UBigInt::from_raw(v)) } else { format!("{:x}", UBigInt::from_raw(v)) }, (2, 3) => if p { format!("{:#o}", UBigInt::from_raw(v)) } else { format!("{:o}", UBigInt::from_raw(v)) }, (2, _) => if p { format!("{:#b}", UBigInt::from_raw(v)) } else { format!("{:b}", UBigInt::from_raw(v)) },
            (_, 4) => if p { format!("{:#x}", BigInt::from_raw(v, neg == 1)) } else { format!("{:x}", BigInt::from_raw(v, neg == 1)) }, (_, 3) => if p { format!("{:#o}", BigInt::from_raw(v, neg == 1)) } else { format!("{:o}", BigInt::from_raw(v, neg == 1)) }, _ => if p { format!("{:#b}", BigInt::from_raw(v, neg == 1)) } else { format!("{:b}", BigInt::from_raw(v, neg == 1)) } };
        let t = strip(s, neg == 1, if !p { "" } else { match b { 4 => "0x", 3 => "0o", _ => "0b" } }, 1);
        check(pow2text(&t, b as u32, 2).eq(z), 1);
    }
}
