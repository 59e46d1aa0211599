//! Conversions between integers and machine integers.
use crate::sym::*;
use crate::util::*;
use hmath::{BigInt, Ratio, UBigInt};

fn zs(v: i128) -> Z { let u = Z::u(v as u128); if forkb(v < 0) { u - Z::pow2(128) } else { u } }
trait Prim: Copy { fn z(self) -> Z; fn lo() -> Z; fn hi() -> Z; fn any() -> Self; }
macro_rules! prim { ($($t:ident $g:ident $as:ident $f:path;)*) => { $( impl Prim for $t { fn z(self) -> Z { $f(self as $as) } fn lo() -> Z { $f($t::MIN as $as) } fn hi() -> Z { $f($t::MAX as $as) } fn any() -> $t { $g() as $t } } )* } }
prim! { u8 u8_ u128 Z::u; u16 u16_ u128 Z::u; u32 u32_ u128 Z::u; u64 u64_ u128 Z::u; u128 u128_ u128 Z::u; usize u64_ u128 Z::u;
        i8 u8_ i128 zs; i16 u16_ i128 zs; i32 u32_ i128 zs; i64 u64_ i128 zs; i128 u128_ i128 zs; isize u64_ i128 zs; }
fn res<T: Prim, E>(r: Result<T, E>, z: Z, id: u32) {
    match r { Ok(v) => check(v.z().eq(z), id), Err(_) => check(!(T::lo().le(z) & z.le(T::hi())), id + 1) }
}
macro_rules! sel { ($k:expr, $m:ident) => { match $k { 0 => $m!(u8), 1 => $m!(u16), 2 => $m!(u32), 3 => $m!(u64), 4 => $m!(u128), 5 => $m!(usize), 6 => $m!(i8), 7 => $m!(i16), 8 => $m!(i32), 9 => $m!(i64), 10 => $m!(i128), _ => $m!(isize) } } }

harness! {
    /// natural -> machine integer: exact when in range, refused otherwise
    fn c_u_to(n, t) {
        let (a, z) = ubz(n);
        macro_rules! go { ($t:ident) => {{ res::<$t, _>($t::try_from(&a), z, 1); res::<$t, _>($t::try_from(a.clone()), z, 3); }} }
        sel!(t, go);
        if t == 2 { res(a.to_u32(), z, 5); } if t == 3 { res(a.to_u64(), z, 5); } if t == 4 { res(a.to_u128(), z, 5); }
    }
    fn c_b_to(n, s, t) {
        let (a, z) = biz(n, s);
        macro_rules! go { ($t:ident) => {{ res::<$t, _>($t::try_from(&a), z, 1); }} }
        sel!(t, go);
        if t == 8 { res(a.to_i32(), z, 5); } if t == 9 { res(a.to_i64(), z, 5); } if t == 10 { res(a.to_i128(), z, 5); }
    }
    /// machine integer -> signed integer and back
    fn c_b_from(t) {
        macro_rules! go { ($t:ident) => {{ let k = $t::any(); let z = k.z(); let b = BigInt::from(k); is_b(&b, z, 1); let b = BigInt::from(&k); is_b(&b, z, 2); res::<$t, _>($t::try_from(&b), z, 3);
            let r = Ratio::from(k); check(zb(&r.get_numer()).eq(z), 5); check(zb(&r.get_denom()).eq(Z::of(1)), 6); check(canon_b(&r.get_numer()), 7); }} }
        sel!(t, go);
    }
    fn c_b_from_named(t) {
        match t { 0 => { let k = i32::any(); is_b(&BigInt::from_i32(k), k.z(), 1); } 1 => { let k = i64::any(); is_b(&BigInt::from_i64(k), k.z(), 1); } _ => { let k = i128::any(); is_b(&BigInt::from_i128(k), k.z(), 1); } }
    }
    fn c_u_from(t) {
        macro_rules! go { ($t:ident) => {{ let k = $t::any(); let z = k.z(); match UBigInt::try_from(k) { Ok(u) => { is_u(&u, z, 1); } Err(_) => check(z.lt(Z::of(0)), 3) }
            match UBigInt::try_from(&k) { Ok(u) => { is_u(&u, z, 1); } Err(_) => check(z.lt(Z::of(0)), 3) } }} }
        sel!(t, go);
        if t == 2 { let k = u32::any(); is_u(&UBigInt::from_u32(k), k.z(), 4); } if t == 3 { let k = u64::any(); is_u(&UBigInt::from_u64(k), k.z(), 4); } if t == 4 { let k = u128::any(); is_u(&UBigInt::from_u128(k), k.z(), 4); }
    }
    fn c_bool(n, s) {
        let (a, z) = biz(n, s); check(bool::from(&a) == !z.eq(Z::of(0)), 1);
        let (u, y) = ubz(n); check(bool::from(&u) == !y.eq(Z::of(0)), 2);
        is_b(&BigInt::from(true), Z::of(1), 3); is_b(&BigInt::from(false), Z::of(0), 4); is_u(&UBigInt::from(true), Z::of(1), 5); is_u(&UBigInt::from(false), Z::of(0), 6);
    }
    /// natural <-> signed
    fn c_sign(n, s) {
        let (a, z) = biz(n, s);
        match a.to_ubi() { Ok(u) => { is_u(&u, z, 1); } Err(_) => check(z.lt(Z::of(0)), 2) }
        match UBigInt::try_from(&a) { Ok(u) => { is_u(&u, z, 3); } Err(_) => check(z.lt(Z::of(0)), 4) }
        let (u, y) = ubz(n); is_b(&BigInt::from(&u), y, 5); is_b(&BigInt::from_ubi(u.clone(), true), y.neg(), 6); is_b(&BigInt::from_ubi(u.clone(), false), y, 7);
        let r = Ratio::from(&u); check(zb(&r.get_numer()).eq(y), 8); check(zb(&r.get_denom()).eq(Z::of(1)), 9);
        let r = Ratio::from(&a); check(zb(&r.get_numer()).eq(z), 10); check(zb(&r.get_denom()).eq(Z::of(1)), 11);
    }
}
