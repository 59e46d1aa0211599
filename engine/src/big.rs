//! Small arbitrary precision signed integer used by the engine itself (never the code under test).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big { pub neg: bool, pub mag: Vec<u32> } // zero = empty magnitude, never negative

fn trim(v: &mut Vec<u32>) { while let Some(0) = v.last() { v.pop(); } }
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() { return a.len().cmp(&b.len()); }
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
        r.push(s as u32); c = s >> 32;
    }
    if c > 0 { r.push(c as u32); }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut bo = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - if i < b.len() { b[i] as i64 } else { 0 } - bo;
        if s < 0 { s += 1 << 32; bo = 1 } else { bo = 0 }
        r.push(s as u32);
    }
    trim(&mut r); r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32; c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r); r
}
fn divmod_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let t = (r << 32) | a[i] as u64;
        q[i] = (t / d as u64) as u32; r = t % d as u64;
    }
    trim(&mut q); (q, r as u32)
}
fn shl_mag(a: &[u32], k: usize) -> Vec<u32> {
    if a.is_empty() { return vec![]; }
    let (w, b) = (k / 32, k % 32);
    let mut r = vec![0u32; w];
    let mut c = 0u32;
    for &x in a {
        if b == 0 { r.push(x) } else { r.push((x << b) | c); c = x >> (32 - b); }
    }
    if c > 0 { r.push(c) }
    r
}
fn shr_mag(a: &[u32], k: usize) -> Vec<u32> {
    let (w, b) = (k / 32, k % 32);
    if w >= a.len() { return vec![]; }
    let mut r = Vec::new();
    for i in w..a.len() {
        let lo = a[i] >> b;
        let hi = if b > 0 && i + 1 < a.len() { a[i + 1] << (32 - b) } else { 0 };
        r.push(lo | hi);
    }
    trim(&mut r); r
}
fn divmod_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less { return (vec![], a.to_vec()); }
    if b.len() == 1 { let (q, r) = divmod_small(a, b[0]); return (q, if r == 0 { vec![] } else { vec![r] }); }
    let s = b[b.len() - 1].leading_zeros() as usize;
    let v = shl_mag(b, s);
    let mut u = shl_mag(a, s);
    if u.len() == a.len() { u.push(0); }
    let n = v.len(); let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64; let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1; rh += v[n - 1] as u64; if rh >= 1 << 32 { break; }
        }
        let mut bo = 0i64; let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c; c = p >> 32;
            let t = u[i + j] as i64 - bo - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32; bo = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - bo - c as i64; u[j + n] = t as u32;
        if t < 0 {
            qh -= 1; let mut c = 0u64;
            for i in 0..n { let t = u[i + j] as u64 + v[i] as u64 + c; u[i + j] = t as u32; c = t >> 32; }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q); trim(&mut u);
    (q, shr_mag(&u, s))
}

impl Big {
    pub fn zero() -> Big { Big { neg: false, mag: vec![] } }
    pub fn one() -> Big { Big::from(1u128) }
    fn mk(neg: bool, mut mag: Vec<u32>) -> Big { trim(&mut mag); let neg = neg && !mag.is_empty(); Big { neg, mag } }
    pub fn from_i128(x: i128) -> Big { let mut r = Big::from(x.unsigned_abs()); r.neg = x < 0; r }
    pub fn pow2(k: usize) -> Big { Big { neg: false, mag: shl_mag(&[1], k) } }
    pub fn is_zero(&self) -> bool { self.mag.is_empty() }
    pub fn is_one(&self) -> bool { !self.neg && self.mag.len() == 1 && self.mag[0] == 1 }
    pub fn bits(&self) -> usize { match self.mag.last() { None => 0, Some(t) => self.mag.len() * 32 - t.leading_zeros() as usize } }
    pub fn neg(&self) -> Big { Big::mk(!self.neg, self.mag.clone()) }
    pub fn abs(&self) -> Big { Big::mk(false, self.mag.clone()) }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg { return Big::mk(self.neg, add_mag(&self.mag, &o.mag)); }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::mk(self.neg, sub_mag(&self.mag, &o.mag)),
            Ordering::Less => Big::mk(o.neg, sub_mag(&o.mag, &self.mag)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big { self.add(&o.neg()) }
    pub fn mul(&self, o: &Big) -> Big { Big::mk(self.neg != o.neg, mul_mag(&self.mag, &o.mag)) }
    pub fn shl(&self, k: usize) -> Big { Big::mk(self.neg, shl_mag(&self.mag, k)) }
    /// floor division and modulus with the sign of the divisor (divisor positive here)
    pub fn divmod_floor(&self, d: &Big) -> (Big, Big) {
        assert!(!d.neg && !d.is_zero());
        let (q, r) = divmod_mag(&self.mag, &d.mag);
        if !self.neg { return (Big::mk(false, q), Big::mk(false, r)); }
        let r = Big::mk(false, r);
        if r.is_zero() { return (Big::mk(true, q), r); }
        (Big::mk(true, q).sub(&Big::one()), d.sub(&r))
    }
    /// division truncating toward zero
    pub fn divmod_trunc(&self, d: &Big) -> (Big, Big) {
        let (q, r) = divmod_mag(&self.mag, &d.mag);
        (Big::mk(self.neg != d.neg, q), Big::mk(self.neg, r))
    }
    pub fn floor_pow2(&self, k: usize) -> Big { // floor(self / 2^k)
        let q = Big::mk(self.neg, shr_mag(&self.mag, k));
        if self.neg && q.shl(k) != *self { q.sub(&Big::one()) } else { q }
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() { let r = a.divmod_trunc(&b).1; a = b; b = r; }
        a
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 4 { return None; }
        let mut r = 0u128;
        for (i, x) in self.mag.iter().enumerate() { r |= (*x as u128) << (32 * i); }
        Some(r)
    }
    /// value modulo 2^w as u128 (w <= 128)
    pub fn mod_pow2(&self, w: usize) -> u128 {
        let m = self.divmod_floor(&Big::pow2(w)).1;
        m.to_u128().unwrap()
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, s) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s) };
        if s.is_empty() { return None; }
        let mut mag: Vec<u32> = vec![];
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = (i + 9).min(b.len());
            let chunk: u32 = s[i..e].parse().ok()?;
            let mut c = chunk as u64; let p = 10u64.pow((e - i) as u32);
            for x in mag.iter_mut() { let t = *x as u64 * p + c; *x = t as u32; c = t >> 32; }
            if c > 0 { mag.push(c as u32); }
            i = e;
        }
        Some(Big::mk(neg, mag))
    }
    pub fn to_f64(&self) -> f64 { let mut r = 0f64; for x in self.mag.iter().rev() { r = r * 4294967296.0 + *x as f64; } if self.neg { -r } else { r } }
}
impl From<u128> for Big { fn from(x: u128) -> Big { Big::mk(false, vec![x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32]) } }
impl PartialOrd for Big { fn partial_cmp(&self, o: &Big) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater, (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag), (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
impl std::fmt::Display for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.mag.is_empty() { return write!(f, "0"); }
        let mut parts = vec![]; let mut m = self.mag.clone();
        while !m.is_empty() { let (q, r) = divmod_small(&m, 1_000_000_000); parts.push(r); m = q; }
        let mut s = String::new();
        if self.neg { s.push('-'); }
        s += &parts.pop().unwrap().to_string();
        for p in parts.iter().rev() { s += &format!("{:09}", p); }
        write!(f, "{}", s)
    }
}
