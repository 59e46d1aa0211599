#![allow(dead_code)]
use crate::sym::*;
use hmath::{BigInt, UBigInt};

/// n symbolic limbs forming a canonical magnitude (n == 1 includes zero)
pub fn limbs(n: u64) -> Vec<u32> { let mut v = Vec::with_capacity(n as usize); for _ in 0..n { v.push(u32_()); } if n > 1 { assume(v[n as usize - 1] != 0); } v }
pub fn ubi(n: u64) -> UBigInt { UBigInt::from_raw(limbs(n)) }
pub fn ubz(n: u64) -> (UBigInt, Z) { let v = limbs(n); let z = Z::limbs(&v); (UBigInt::from_raw(v), z) }
pub fn zu(x: &UBigInt) -> Z { Z::limbs(&x.clone().into_raw()) }
pub fn zun(x: &UBigInt) -> Z { Z::limbs_named(&x.clone().into_raw()) }
pub fn canon(x: &UBigInt) -> bool { let v = x.clone().into_raw(); !v.is_empty() && (v.len() == 1 || v[v.len() - 1] != 0) }
/// the value is `z` and the representation is canonical
pub fn is_u(x: &UBigInt, z: Z, id: u32) { check(canon(x), id * 10 + 1); check(zu(x).eq(z), id * 10 + 2); }
/// neg: 0 positive, 1 negative (nonzero magnitude assumed)
pub fn biz(n: u64, neg: u64) -> (BigInt, Z) {
    let v = limbs(n); if neg == 1 && n == 1 { assume(v[0] != 0); }
    let z = Z::limbs(&v); (BigInt::from_raw(v, neg == 1), if neg == 1 { z.neg() } else { z })
}
pub fn zb(x: &BigInt) -> Z { let (v, n) = x.clone().into_raw(); let z = Z::limbs(&v); if n { z.neg() } else { z } }
pub fn canon_b(x: &BigInt) -> bool { let (v, n) = x.clone().into_raw(); !v.is_empty() && (v.len() == 1 || v[v.len() - 1] != 0) && !(n && v.len() == 1 && v[0] == 0) }
pub fn is_b(x: &BigInt, z: Z, id: u32) { check(canon_b(x), id * 10 + 1); check(zb(x).eq(z), id * 10 + 2); }

/// concrete limb patterns: corner-valued and mixed magnitudes of n limbs
pub fn pat(n: u64, p: u64) -> Vec<u32> {
    const M: u32 = u32::MAX;
    let mut v: Vec<u32> = vec![];
    let mut x = p.wrapping_mul(0x9E3779B97F4A7C15) ^ (n << 32) ^ 0x1234567;
    for i in 0..n {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        let r = (x >> 16) as u32;
        let top = i + 1 == n;
        v.push(match p {
            0 => if top { 1 } else { 0 }, 1 => M, 2 => if top { 1 } else { M }, 3 => if top { M } else { 0 },
            4 => if top || i == 0 { 1 } else { 0 }, 5 => if top { 0x8000_0000 } else { 0 }, 6 => if top { 0x7fff_ffff } else { M },
            7 => if top || i + 2 == n { M } else { 0 }, 8 => if top { 1 } else if i + 2 == n { 0 } else { M }, 9 => if i + 2 == n { 0 } else { M },
            _ => match x % 7 { 0 => M, 1 => if top { 1 } else { 0 }, 2 => 1, 3 => 0x8000_0000, _ => r },
        });
    }
    if n > 0 && v[n as usize - 1] == 0 { v[n as usize - 1] = 1; }
    v
}
