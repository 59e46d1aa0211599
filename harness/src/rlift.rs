//! Contracts for the rational layer: a rational is a numerator and a positive denominator, both
//! unbounded integers, not necessarily in lowest terms (values are what is compared). Used for the
//! code above rationals: matrices, polynomials, complex numbers, conversions to and from F192.
//! The contracts are what the rational checks (ratio.rs) establish.
use crate::lift::*;
use crate::sym::*;
use hmath::{BigInt, Ratio};
use std::cmp::Ordering;

#[derive(Clone, Copy)]
pub struct Q { pub n: Z, pub d: Z }
fn o(k: i64) -> Z { Z::of(k) }
fn same(a: Z, b: Z) -> bool { a.eq_syn(b) }
pub fn qv(r: &Ratio) -> Q { Q { n: num(r), d: den(r) } }
pub fn qx(q: Q) -> Ratio { mk_ratio(q.d, q.n) }
pub fn qz(z: Z) -> Q { Q { n: z, d: o(1) } }
pub fn qi(k: i64) -> Q { qz(o(k)) }
impl Q {
    pub fn add(self, b: Q) -> Q { if same(self.d, b.d) { Q { n: self.n + b.n, d: self.d } } else { Q { n: self.n * b.d + b.n * self.d, d: self.d * b.d } } }
    pub fn neg(self) -> Q { Q { n: self.n.neg(), d: self.d } }
    pub fn sub(self, b: Q) -> Q { self.add(b.neg()) }
    pub fn mul(self, b: Q) -> Q { if same(self.n, b.d) { return Q { n: b.n, d: self.d }; } if same(self.d, b.n) { return Q { n: self.n, d: b.d }; } Q { n: self.n * b.n, d: self.d * b.d } }
    pub fn reci(self) -> Q { if forkb(self.n.eq(o(0))) { panic!("division by zero") } if forkb(self.n.lt(o(0))) { Q { n: self.d.neg(), d: self.n.neg() } } else { Q { n: self.d, d: self.n } } }
    pub fn div(self, b: Q) -> Q { self.mul(b.reci()) }
    pub fn eq(self, b: Q) -> bool { let (x, y) = self.cross(b); x.eq_syn(y) || x.eq(y) }
    fn cross(self, b: Q) -> (Z, Z) { if same(self.d, b.d) { (self.n, b.n) } else { (self.n * b.d, b.n * self.d) } }
    pub fn lt(self, b: Q) -> bool { let (x, y) = self.cross(b); x.lt(y) }
    pub fn cmp(self, b: Q) -> Ordering { if forkb(self.lt(b)) { Ordering::Less } else if forkb(self.eq(b)) { Ordering::Equal } else { Ordering::Greater } }
    pub fn trunc(self) -> Z { if forkb(self.n.lt(o(0))) { self.n.neg().fdiv(self.d).neg() } else { self.n.fdiv(self.d) } }
    pub fn floor(self) -> Z { self.n.fdiv(self.d) }
    pub fn frac(self) -> Q { Q { n: self.n - self.trunc() * self.d, d: self.d } }
    pub fn abs(self) -> Q { if forkb(self.n.lt(o(0))) { self.neg() } else { self } }
    pub fn pow(self, e: u32) -> Q { Q { n: self.n.pow(e), d: self.d.pow(e) } }
}
/// an arbitrary rational
pub fn qvar() -> (Ratio, Q) { let q = qsym(); (qx(q), q) }
#[cfg(not(feature = "native"))]
fn qsym() -> Q { let (n, d) = (Z::var(), Z::var()); assume(o(0).lt(d)); Q { n, d } }
#[cfg(feature = "native")]
fn qsym() -> Q { let (n, d) = (Z::var(), Z::var()); assume(o(0).lt(d)); let g = gcd(n, d); Q { n: n.fdiv(g), d: d.fdiv(g) } }
/// an arbitrary integer as a rational
pub fn qint() -> (Ratio, Q) { let q = qz(Z::var()); (qx(q), q) }

macro_rules! bin { ($($f:ident $n:ident $m:ident $nb:ident $mb:ident $ni:ident $mi:ident;)*) => { $(
    #[no_mangle] pub fn $n(a: &Ratio, b: &Ratio) -> Ratio { qx(qv(a).$f(qv(b))) }
    #[no_mangle] pub fn $m(a: &mut Ratio, b: &Ratio) { *a = qx(qv(a).$f(qv(b))) }
    #[no_mangle] pub fn $nb(a: &Ratio, b: &BigInt) -> Ratio { qx(qv(a).$f(qz(zv(b)))) }
    #[no_mangle] pub fn $mb(a: &mut Ratio, b: &BigInt) { *a = qx(qv(a).$f(qz(zv(b)))) }
    #[no_mangle] pub fn $ni(a: &Ratio, b: i32) -> Ratio { qx(qv(a).$f(qi(b as i64))) }
    #[no_mangle] pub fn $mi(a: &mut Ratio, b: i32) { *a = qx(qv(a).$f(qi(b as i64))) } )* } }
macro_rules! un { ($($f:ident $n:ident $m:ident;)*) => { $(
    #[no_mangle] pub fn $n(a: &Ratio) -> Ratio { qx(qv(a).$f()) }
    #[no_mangle] pub fn $m(a: &mut Ratio) { *a = qx(qv(a).$f()) } )* } }
macro_rules! pred { ($($n:ident $m:ident $f:expr;)*) => { $(
    #[no_mangle] pub fn $n(a: &Ratio, b: &Ratio) -> bool { let f: fn(Q, Q) -> bool = $f; f(qv(a), qv(b)) }
    #[no_mangle] pub fn $m(a: &Ratio, b: i32) -> bool { let f: fn(Q, Q) -> bool = $f; f(qv(a), qi(b as i64)) } )* } }
bin! { add rl_add rl_add_mut rl_add_bi rl_add_bi_mut rl_add_i32 rl_add_i32_mut; sub rl_sub rl_sub_mut rl_sub_bi rl_sub_bi_mut rl_sub_i32 rl_sub_i32_mut;
       mul rl_mul rl_mul_mut rl_mul_bi rl_mul_bi_mut rl_mul_i32 rl_mul_i32_mut; div rl_div rl_div_mut rl_div_bi rl_div_bi_mut rl_div_i32 rl_div_i32_mut; }
un! { neg rl_neg rl_neg_mut; abs rl_abs rl_abs_mut; reci rl_reci rl_reci_mut; frac rl_frac rl_frac_mut; }
pred! { rl_lt rl_lt_i32 |a, b| a.lt(b); rl_gt rl_gt_i32 |a, b| b.lt(a); rl_leq rl_leq_i32 |a, b| !b.lt(a); rl_geq rl_geq_i32 |a, b| !a.lt(b); rl_eq rl_eq_i32 |a, b| a.eq(b); rl_neq rl_neq_i32 |a, b| !a.eq(b); }
#[no_mangle] pub fn rl_comp(a: &Ratio, b: &Ratio) -> Ordering { qv(a).cmp(qv(b)) }
#[no_mangle] pub fn rl_partial_cmp(a: &Ratio, b: &Ratio) -> Option<Ordering> { Some(qv(a).cmp(qv(b))) }
#[no_mangle] pub fn rl_comp_i32(a: &Ratio, b: i32) -> Ordering { qv(a).cmp(qi(b as i64)) }
#[no_mangle] pub fn rl_lt_one(a: &Ratio) -> bool { let q = qv(a); q.n.lt(q.d) }
#[no_mangle] pub fn rl_gt_one(a: &Ratio) -> bool { let q = qv(a); q.d.lt(q.n) }
#[no_mangle] pub fn rl_is_neg(a: &Ratio) -> bool { qv(a).n.lt(o(0)) }
#[no_mangle] pub fn rl_is_zero(a: &Ratio) -> bool { qv(a).n.eq(o(0)) }
#[no_mangle] pub fn rl_is_one(a: &Ratio) -> bool { let q = qv(a); q.n.eq(q.d) }
#[no_mangle] pub fn rl_is_integer(a: &Ratio) -> bool { let q = qv(a); (q.n.fdiv(q.d) * q.d).eq(q.n) }
#[no_mangle] pub fn rl_truncate_bi(a: &Ratio) -> BigInt { bx(qv(a).trunc()) }
#[no_mangle] pub fn rl_truncate(a: &Ratio) -> Ratio { qx(qz(qv(a).trunc())) }
#[no_mangle] pub fn rl_truncate_mut(a: &mut Ratio) { *a = qx(qz(qv(a).trunc())) }
#[no_mangle] pub fn rl_floor_bi(a: &Ratio) -> BigInt { bx(qv(a).floor()) }
#[no_mangle] pub fn rl_floor(a: &Ratio) -> Ratio { qx(qz(qv(a).floor())) }
#[no_mangle] pub fn rl_truncate_and_frac(a: &Ratio) -> (BigInt, Ratio) { let q = qv(a); (bx(q.trunc()), qx(q.frac())) }
#[no_mangle] pub fn rl_from_denom_and_numer(d: BigInt, n: BigInt) -> Ratio { qx(qz(zv(&n)).div(qz(zv(&d)))) }
#[no_mangle] pub fn rl_from_denom_and_numer_i32(d: i32, n: i32) -> Ratio { qx(qi(n as i64).div(qi(d as i64))) }
#[no_mangle] pub fn rl_pow_i32(a: &Ratio, e: i32) -> Ratio { let e = fork(e as u32 as u64) as u32 as i32; let q = qv(a).pow(e.unsigned_abs()); qx(if e < 0 { q.reci() } else { q }) }
#[no_mangle] pub fn rl_pow_i32_mut(a: &mut Ratio, e: i32) { *a = rl_pow_i32(a, e) }
