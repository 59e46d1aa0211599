//! Interface between harnesses and the symbolic engine. With feature `native` the same harness runs
//! as ordinary code on concrete inputs (replay of a counterexample or of a sampled path).
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_u8() -> u8; pub fn sym_u16() -> u16; pub fn sym_u32() -> u32; pub fn sym_u64() -> u64; pub fn sym_u128() -> u128;
        pub fn sym_assume(b: bool); pub fn sym_assert(b: bool, id: u32); pub fn sym_expect_panic(); pub fn sym_may_panic(b: u32); pub fn sym_cover(id: u32);
        pub fn sym_fork(v: u64) -> u64; pub fn sym_fork_bool(b: bool) -> bool;
        pub fn sym_z_var() -> u64; pub fn sym_z_i64(v: i64) -> u64; pub fn sym_z_u128(v: u128) -> u64; pub fn sym_z_limbs(p: *const u32, n: usize) -> u64;
        pub fn sym_z_add(a: u64, b: u64) -> u64; pub fn sym_z_sub(a: u64, b: u64) -> u64; pub fn sym_z_mul(a: u64, b: u64) -> u64; pub fn sym_z_fdiv(a: u64, b: u64) -> u64;
        pub fn sym_z_ite(c: bool, a: u64, b: u64) -> u64; pub fn sym_z_eq(a: u64, b: u64) -> bool; pub fn sym_z_lt(a: u64, b: u64) -> bool; pub fn sym_z_tobv(a: u64) -> u128;
        pub fn sym_z_limbs_named(p: *const u32, n: usize) -> u64; pub fn sym_z_split(z: u64, p: *mut u32, n: usize);
        pub fn sym_z_uf(id: u32, a: u64, b: u64) -> u64; pub fn sym_z_same(a: u64, b: u64) -> bool;
    }
}

#[cfg(feature = "native")]
pub mod imp {
    #![allow(clippy::missing_safety_doc)]
    pub use crate::big::Big;
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct N { pub inputs: Vec<Big>, pub pos: usize, pub zs: Vec<Big>, pub expect_panic: bool, pub may_panic: bool }
    thread_local! { pub static S: RefCell<N> = RefCell::new(N::default()); }
    pub fn stop(code: i32, msg: &str) -> ! { println!("REPLAY-OUTCOME {}", msg); std::process::exit(code) }
    fn next() -> Big { S.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; match s.inputs.get(p) { Some(v) => v.clone(), None => Big::zero() } }) }
    fn nz(b: Big) -> u64 { S.with(|s| { let mut s = s.borrow_mut(); s.zs.push(b); s.zs.len() as u64 - 1 }) }
    fn gz(h: u64) -> Big { S.with(|s| s.borrow().zs[h as usize].clone()) }
    pub unsafe fn sym_u8() -> u8 { next().to_u128().unwrap() as u8 }
    pub unsafe fn sym_u16() -> u16 { next().to_u128().unwrap() as u16 }
    pub unsafe fn sym_u32() -> u32 { next().to_u128().unwrap() as u32 }
    pub unsafe fn sym_u64() -> u64 { next().to_u128().unwrap() as u64 }
    pub unsafe fn sym_u128() -> u128 { next().to_u128().unwrap() }
    pub unsafe fn sym_assume(b: bool) { if !b { stop(45, "assumption not satisfied") } }
    pub unsafe fn sym_assert(b: bool, id: u32) { if !b { stop(42, &format!("assertion {} failed", id)) } }
    pub unsafe fn sym_expect_panic() { S.with(|s| s.borrow_mut().expect_panic = true) }
    pub unsafe fn sym_may_panic(b: u32) { S.with(|s| s.borrow_mut().may_panic = b != 0) }
    pub unsafe fn sym_cover(_: u32) {}
    pub unsafe fn sym_fork(v: u64) -> u64 { v }
    pub unsafe fn sym_fork_bool(b: bool) -> bool { b }
    pub unsafe fn sym_z_var() -> u64 { nz(next()) }
    pub unsafe fn sym_z_i64(v: i64) -> u64 { nz(Big::from_i128(v as i128)) }
    pub unsafe fn sym_z_u128(v: u128) -> u64 { nz(Big::from(v)) }
    pub unsafe fn sym_z_limbs(p: *const u32, n: usize) -> u64 { let s = std::slice::from_raw_parts(p, n); let mut v = s.to_vec(); while let Some(0) = v.last() { v.pop(); } nz(Big { neg: false, mag: v }) }
    pub unsafe fn sym_z_limbs_named(p: *const u32, n: usize) -> u64 { sym_z_limbs(p, n) }
    pub unsafe fn sym_z_split(z: u64, p: *mut u32, n: usize) { let z = gz(z); for i in 0..n { *p.add(i) = z.mag.get(i).copied().unwrap_or(0); } }
    pub unsafe fn sym_z_add(a: u64, b: u64) -> u64 { nz(gz(a).add(&gz(b))) }
    pub unsafe fn sym_z_sub(a: u64, b: u64) -> u64 { nz(gz(a).sub(&gz(b))) }
    pub unsafe fn sym_z_mul(a: u64, b: u64) -> u64 { nz(gz(a).mul(&gz(b))) }
    pub unsafe fn sym_z_fdiv(a: u64, b: u64) -> u64 { let d = gz(b); nz(if d.is_zero() || d.neg { Big::zero() } else { gz(a).divmod_floor(&d).0 }) }
    pub unsafe fn sym_z_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
    pub unsafe fn sym_z_eq(a: u64, b: u64) -> bool { gz(a) == gz(b) }
    pub unsafe fn sym_z_lt(a: u64, b: u64) -> bool { gz(a) < gz(b) }
    pub unsafe fn sym_z_tobv(a: u64) -> u128 { gz(a).mod_pow2(128) }
    pub unsafe fn sym_z_same(a: u64, b: u64) -> bool { gz(a) == gz(b) }
    /// 1: greatest common divisor
    pub unsafe fn sym_z_uf(id: u32, a: u64, b: u64) -> u64 {
        assert!(id == 1);
        let (mut x, mut y) = (gz(a).abs(), gz(b).abs());
        while !y.is_zero() { let r = x.divmod_floor(&y).1; x = y; y = r; }
        nz(x)
    }
}

pub fn u8_() -> u8 { unsafe { imp::sym_u8() } }
pub fn u16_() -> u16 { unsafe { imp::sym_u16() } }
pub fn u32_() -> u32 { unsafe { imp::sym_u32() } }
pub fn u64_() -> u64 { unsafe { imp::sym_u64() } }
pub fn u128_() -> u128 { unsafe { imp::sym_u128() } }
pub fn i32_() -> i32 { u32_() as i32 }
pub fn assume(b: bool) { unsafe { imp::sym_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { imp::sym_assert(b, id) } }
/// from here on the path must end in a panic
pub fn expect_panic() { unsafe { imp::sym_expect_panic() } }
pub fn may_panic(b: bool) { unsafe { imp::sym_may_panic(b as u32) } }
pub fn cover(id: u32) { unsafe { imp::sym_cover(id) } }
/// case split: continue with a concrete value on each path
pub fn fork(v: u64) -> u64 { unsafe { imp::sym_fork(v) } }
pub unsafe fn z_uf(k: u32, a: u64, b: u64) -> u64 { imp::sym_z_uf(k, a, b) }
pub fn forkb(b: bool) -> bool { unsafe { imp::sym_fork_bool(b) } }

/// Mathematical integers: the oracle's number type.
#[derive(Clone, Copy)]
pub struct Z(pub u64);
impl Z {
    pub fn of(v: i64) -> Z { Z(unsafe { imp::sym_z_i64(v) }) }
    pub fn u(v: u128) -> Z { Z(unsafe { imp::sym_z_u128(v) }) }
    pub fn limbs(v: &[u32]) -> Z { Z(unsafe { imp::sym_z_limbs(v.as_ptr(), v.len()) }) }
    /// same value, kept as one named quantity in nonlinear reasoning
    pub fn limbs_named(v: &[u32]) -> Z { Z(unsafe { imp::sym_z_limbs_named(v.as_ptr(), v.len()) }) }
    /// the n low limbs; the caller has established 0 <= self < 2^(32n)
    pub fn split(self, n: u64) -> Vec<u32> { let mut v = vec![0u32; n as usize]; unsafe { imp::sym_z_split(self.0, v.as_mut_ptr(), n as usize) } v }
    pub fn var() -> Z { Z(unsafe { imp::sym_z_var() }) }
    /// floor division, positive divisor
    pub fn fdiv(self, o: Z) -> Z { Z(unsafe { imp::sym_z_fdiv(self.0, o.0) }) }
    pub fn eq(self, o: Z) -> bool { unsafe { imp::sym_z_eq(self.0, o.0) } }
    pub fn lt(self, o: Z) -> bool { unsafe { imp::sym_z_lt(self.0, o.0) } }
    pub fn le(self, o: Z) -> bool { !o.lt(self) }
    pub fn ite(c: bool, a: Z, b: Z) -> Z { Z(unsafe { imp::sym_z_ite(c, a.0, b.0) }) }
    pub fn pow2(k: u64) -> Z { let mut v = vec![0u32; (k / 32) as usize + 1]; v[(k / 32) as usize] = 1 << (k % 32); Z::limbs(&v) }
    /// the same polynomial over the same unknowns (decided syntactically)
    pub fn eq_syn(self, o: Z) -> bool { unsafe { imp::sym_z_same(self.0, o.0) } }
    pub fn neg(self) -> Z { Z::of(0) - self }
    pub fn abs(self) -> Z { Z::ite(self.lt(Z::of(0)), self.neg(), self) }
    pub fn low128(self) -> u128 { unsafe { imp::sym_z_tobv(self.0) } }
    pub fn pow(self, k: u32) -> Z { let mut r = Z::of(1); for _ in 0..k { r = r * self; } r }
}
impl std::ops::Add for Z { type Output = Z; fn add(self, o: Z) -> Z { Z(unsafe { imp::sym_z_add(self.0, o.0) }) } }
impl std::ops::Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { Z(unsafe { imp::sym_z_sub(self.0, o.0) }) } }
impl std::ops::Mul for Z { type Output = Z; fn mul(self, o: Z) -> Z { Z(unsafe { imp::sym_z_mul(self.0, o.0) }) } }

#[macro_export]
macro_rules! harness {
    ($( $(#[$m:meta])* fn $name:ident ( $($p:ident),* ) $body:block )*) => {
        $( $(#[$m])* #[allow(non_snake_case)] pub fn $name($($p: u64),*) $body )*
        pub mod ext { $( #[no_mangle] pub extern "C" fn $name($($p: u64),*) { super::$name($($p),*) } )* }
        pub const TABLE: &[(&str, fn(&[u64]))] = &[ $( (stringify!($name), |a: &[u64]| { let mut _i = 0usize; let _ = a; $( let $p = a.get(_i).copied().unwrap_or(0); _i += 1; )* $name($($p),*) }) ),* ];
    }
}
