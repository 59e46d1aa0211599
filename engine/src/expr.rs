//! Hash-consed term DAG: bit-vector terms (width 1..=128) and mathematical integer terms (width 0).
use crate::big::Big;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    C(u128), V(u32),
    Add, Sub, Mul, UDiv, URem, And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Extract(u32), Concat, Ite, Not,
    Eq, Ult, Slt,
    // integers
    IC(Big), IV(u32), IAdd, ISub, IMul, IDiv, IOfBV, IIte, IName, IEq, ILt,
    /// integer -> bit-vector, modulo 2^w
    ToBV,
    /// uninterpreted application: id, up to 3 integer/bv arguments
    UF(u32),
}

#[derive(Clone, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: E, pub b: E, pub c: E, pub lo: u128, pub hi: u128, pub ones: u128 }

pub const NIL: E = u32::MAX;

#[derive(Clone, Debug)]
pub struct VarInfo { pub name: String, pub w: u32 /* 0 = int */, pub ilo: Option<Big>, pub ihi: Option<Big> }

pub struct Ctx {
    pub n: Vec<Node>,
    map: HashMap<(Op, u32, E, E, E), E>,
    pub vars: Vec<VarInfo>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
fn bitlen(x: u128) -> u32 { 128 - x.leading_zeros() }

#[derive(Clone, Debug, PartialEq)]
pub enum EV { B(u128), I(Big) }
impl EV { pub fn b(&self) -> u128 { match self { EV::B(x) => *x, EV::I(_) => panic!("EV") } } pub fn i(&self) -> &Big { match self { EV::I(x) => x, _ => panic!("EV") } } }

pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl Ctx {
    pub fn new() -> Ctx { Ctx { n: vec![], map: HashMap::new(), vars: vec![] } }
    #[inline] pub fn nd(&self, e: E) -> &Node { &self.n[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u32 { self.n[e as usize].w }
    pub fn cv(&self, e: E) -> Option<u128> { match self.n[e as usize].op { Op::C(x) => Some(x), _ => None } }
    pub fn icv(&self, e: E) -> Option<Big> { match &self.n[e as usize].op { Op::IC(x) => Some(x.clone()), _ => None } }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let key = (op.clone(), w, a, b, c);
        if let Some(e) = self.map.get(&key) { return *e; }
        let (lo, hi, ones) = self.range(&op, w, a, b, c);
        if w > 0 && lo == hi && !matches!(op, Op::C(_)) { let r = self.c(lo, w); self.map.insert(key, r); return r; }
        let e = self.n.len() as E;
        self.n.push(Node { op, w, a, b, c, lo, hi, ones });
        self.map.insert(key, e);
        e
    }
    fn range(&self, op: &Op, w: u32, a: E, b: E, c: E) -> (u128, u128, u128) {
        let m = mask(w);
        if w == 0 { return (0, 0, 0); }
        let full = |hi: u128| if hi == 0 { 0 } else { mask(bitlen(hi)) };
        let nn = |e: E| { let n = self.nd(e); (n.lo, n.hi, n.ones) };
        let (lo, hi, ones) = match op {
            Op::C(x) => (*x, *x, *x),
            Op::Add => {
                let (al, ah, ao) = nn(a); let (bl, bh, bo) = nn(b);
                if ao & bo == 0 { (0.max(al | 0).max(bl), ao | bo, ao | bo) }
                else { match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h, full(h)),
                    _ => { // constant negative addend that always wraps once
                        match al.checked_add(bl) { Some(l) if l <= m => (0, m, m), _ => { let l = al.wrapping_add(bl) & m; let h = ah.wrapping_add(bh) & m; if l <= h { (l, h, full(h)) } else { (0, m, m) } } }
                    } } }
            }
            Op::Sub => { let (al, ah, _) = nn(a); let (bl, bh, _) = nn(b); if al >= bh { (al - bh, ah - bl, full(ah - bl)) } else { (0, m, m) } }
            Op::Mul => {
                let (al, ah, _) = nn(a); let (bl, bh, _) = nn(b);
                match ah.checked_mul(bh) { Some(h) if h <= m => {
                    // trailing zero bits known
                    let tz = self.nd(a).ones.trailing_zeros().min(127) + self.nd(b).ones.trailing_zeros().min(127);
                    let low = if tz >= 128 { u128::MAX } else { (1u128 << tz) - 1 };
                    (al * bl, h, full(h) & !low) }, _ => (0, m, m) }
            }
            Op::UDiv => { let (al, ah, _) = nn(a); let (bl, bh, _) = nn(b); if bh == 0 { (0, 0, 0) } else { let l = al / bh; let h = ah / bl.max(1); (if bl == 0 { 0 } else { l }, h, full(h)) } }
            Op::URem => { let (_, ah, _) = nn(a); let (_, bh, _) = nn(b); if bh == 0 { (0, 0, 0) } else { let h = ah.min(bh - 1); (0, h, full(h)) } }
            Op::And => { let (_, ah, ao) = nn(a); let (_, bh, bo) = nn(b); let o = ao & bo; (0, ah.min(bh).min(o), o) }
            Op::Or => { let (al, _, ao) = nn(a); let (bl, _, bo) = nn(b); let o = ao | bo; (al.max(bl), o, o) }
            Op::Xor => { let (_, _, ao) = nn(a); let (_, _, bo) = nn(b); if let (Op::C(x), true) = (&self.nd(b).op, true) { if *x == m { let (l, h, _) = nn(a); return (m - h, m - l, m); } } let o = ao | bo; (0, o, o) }
            Op::ZExt => nn(a),
            Op::SExt => { let aw = self.w(a); let (l, h, o) = nn(a); if h >> (aw - 1) == 0 { (l, h, o) } else { (0, m, m) } }
            Op::Extract(lo) => { let (l, h, o) = nn(a); if h.checked_shr(*lo).unwrap_or(0) <= m { (l >> lo, h >> lo, (o >> lo) & m) } else { (0, m.min((o >> lo) & m), (o >> lo) & m) } }
            Op::Concat => { let (al, ah, ao) = nn(a); let (bl, bh, bo) = nn(b); let k = self.w(b); ((al << k) | bl, (ah << k) | bh, (ao << k) | bo) }
            Op::Ite => { let (al, ah, ao) = nn(b); let (bl, bh, bo) = nn(c); (al.min(bl), ah.max(bh), ao | bo) }
            _ => (0, m, m),
        };
        (lo, hi, ones)
    }
    pub fn c(&mut self, v: u128, w: u32) -> E { let v = v & mask(w); self.mk(Op::C(v), w, NIL, NIL, NIL) }
    pub fn tru(&mut self) -> E { self.c(1, 1) }
    pub fn fls(&mut self) -> E { self.c(0, 1) }
    #[allow(dead_code)] pub fn show(&self, e: E, d: u32) -> String { if e == NIL { return String::new(); } let n = self.nd(e); match &n.op { Op::IC(x) => return x.to_string(), Op::C(x) => return format!("{}:{}", x, n.w), Op::V(i) => return format!("v{}", i), Op::IV(i) => return format!("z{}", i), _ => {} } if d == 0 { return "..".into(); } let mut s = format!("({:?}:{}", n.op, n.w); for k in [n.a, n.b, n.c] { if k != NIL { s += " "; s += &self.show(k, d - 1); } } s + ")" }
    pub fn var(&mut self, name: String, w: u32) -> E { let id = self.vars.len() as u32; self.vars.push(VarInfo { name, w, ilo: None, ihi: None }); if w == 0 { self.mk(Op::IV(id), 0, NIL, NIL, NIL) } else { self.mk(Op::V(id), w, NIL, NIL, NIL) } }

    pub fn var_node(&mut self, id: u32, w: u32) -> E { if w == 0 { self.mk(Op::IV(id), 0, NIL, NIL, NIL) } else { self.mk(Op::V(id), w, NIL, NIL, NIL) } }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c(x.wrapping_add(y), w); }
        if let Some(y) = self.cv(b) {
            if y == 0 { return a; }
            if let Op::Add = self.nd(a).op { let (p, q) = (self.nd(a).a, self.nd(a).b); if let Some(x) = self.cv(q) { let k = self.c(x.wrapping_add(y), w); return self.add(p, k); } }
            return self.mk(Op::Add, w, a, b, NIL);
        }
        // disjoint bits: canonicalise to a concatenation where possible
        if self.nd(a).ones & self.nd(b).ones == 0 { return self.or(a, b); }
        // x + (y - x) -> y
        if let Op::Sub = self.nd(b).op { if self.nd(b).b == a { return self.nd(b).a; } }
        if let Op::Sub = self.nd(a).op { if self.nd(a).b == b { return self.nd(a).a; } }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, NIL)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(x.wrapping_sub(y), w); }
            let k = self.c(0u128.wrapping_sub(y), w); return self.add(a, k);
        }
        if let Op::Add = self.nd(a).op { let (p, q) = (self.nd(a).a, self.nd(a).b); if p == b { return q; } if q == b { return p; } }
        self.mk(Op::Sub, w, a, b, NIL)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c(x.wrapping_mul(y), w); }
        if let Some(y) = self.cv(b) { if y == 0 { return b; } if y == 1 { return a; } if y.is_power_of_two() { let k = y.trailing_zeros(); return self.shl_k(a, k); } }
        let (a, b) = if self.cv(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, NIL)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) { if y != 0 { if let Some(x) = self.cv(a) { return self.c(x / y, w); } if y.is_power_of_two() { return self.lshr_k(a, y.trailing_zeros()); } } }
        if self.nd(b).lo > self.nd(a).hi { return self.c(0, w); }
        // narrow when both operands are known to fit
        let nw = bitlen(self.nd(a).hi.max(self.nd(b).hi)).max(1);
        if let (Op::ZExt, true) = (&self.nd(a).op, nw < w) { let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw); if true { let r = self.mk(Op::UDiv, nw, x, y, NIL); return self.zext(r, w); } }
        self.mk(Op::UDiv, w, a, b, NIL)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) { if y != 0 { if let Some(x) = self.cv(a) { return self.c(x % y, w); } if y.is_power_of_two() { let k = self.c(y - 1, w); return self.and(a, k); } } }
        if self.nd(b).lo > self.nd(a).hi { return a; }
        let nw = bitlen(self.nd(a).hi.max(self.nd(b).hi)).max(1);
        if let (Op::ZExt, true) = (&self.nd(a).op, nw < w) { let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw); if true { let r = self.mk(Op::URem, nw, x, y, NIL); return self.zext(r, w); } }
        self.mk(Op::URem, w, a, b, NIL)
    }
    pub fn sdiv(&mut self, a: E, b: E, rem: bool) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let (x, y) = (sx(x, w), sx(y, w)); if y != 0 { let r = if rem { x.wrapping_rem(y) } else { x.wrapping_div(y) }; return self.c(r as u128, w); } }
        let sa = self.sign(a); let sb = self.sign(b);
        let z = self.c(0, w);
        let na = self.sub(z, a); let nb = self.sub(z, b);
        let aa = self.ite(sa, na, a); let ab = self.ite(sb, nb, b);
        if rem { let r = self.urem(aa, ab); let nr = self.sub(z, r); self.ite(sa, nr, r) }
        else { let q = self.udiv(aa, ab); let nq = self.sub(z, q); let s = self.xor(sa, sb); self.ite(s, nq, q) }
    }
    pub fn sign(&mut self, a: E) -> E { let w = self.w(a); self.extract(a, w - 1, 1) }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a); let m = mask(w);
        if a == b { return a; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(x & y, w); }
            if y == 0 { return b; } if y == m { return a; }
            let o = self.nd(a).ones;
            if o & !y == 0 { return a; }
            if o & y == 0 { return self.c(0, w); }
            // contiguous mask
            let lo = y.trailing_zeros(); let sh = y >> lo;
            if sh & sh.wrapping_add(1) == 0 { let n = bitlen(sh); let x = self.extract(a, lo, n); let z = self.zext(x, w - lo); return if lo == 0 { z } else { let zz = self.c(0, lo); self.concat(z, zz) }; }
        }
        if w == 1 {
            let na = self.not(a); if na == b { return self.c(0, 1); }
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            return self.mk(Op::And, 1, a, b, NIL);
        }
        let (a, b) = if self.cv(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, NIL)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a); let m = mask(w);
        if a == b { return a; }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) { if let Some(x) = self.cv(a) { return self.c(x | y, w); } if y == 0 { return a; } if y == m { return b; } }
        if w == 1 {
            let na = self.not(a); if na == b { return self.c(1, 1); }
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            return self.mk(Op::Or, 1, a, b, NIL);
        }
        let (oa, ob) = (self.nd(a).ones, self.nd(b).ones);
        if oa & ob == 0 {
            for (h, l, oh, ol) in [(a, b, oa, ob), (b, a, ob, oa)] {
                let k = bitlen(ol);
                if k > 0 && k < w && (oh == 0 || oh.trailing_zeros() >= k) { let x = self.extract(h, k, w - k); let y = self.extract(l, 0, k); return self.concat(x, y); }
            }
        }
        let (a, b) = if self.cv(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, NIL)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c(x ^ y, w); } if y == 0 { return a; } if w == 1 { return self.not(a); }
            if let Op::Xor = self.nd(a).op { let (p, q) = (self.nd(a).a, self.nd(a).b); if let Some(x) = self.cv(q) { let k = self.c(x ^ y, w); return self.xor(p, k); } }
        }
        if self.nd(a).ones & self.nd(b).ones == 0 { return self.or(a, b); }
        let (a, b) = if self.cv(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, NIL)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w > 1 { let m = self.c(mask(w), w); return self.xor(a, m); }
        if let Some(x) = self.cv(a) { return self.c(1 - x, 1); }
        if let Op::Not = self.nd(a).op { return self.nd(a).a; }
        self.mk(Op::Not, 1, a, NIL, NIL)
    }
    pub fn shl_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 { return a; } if k >= w { return self.c(0, w); }
        let x = self.extract(a, 0, w - k); let z = self.c(0, k); self.concat(x, z)
    }
    pub fn lshr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 { return a; } if k >= w { return self.c(0, w); }
        let x = self.extract(a, k, w - k); self.zext(x, w)
    }
    pub fn ashr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 { return a; }
        let k = k.min(w - 1);
        let x = self.extract(a, k, w - k); self.sext(x, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E { let w = self.w(a); if let Some(k) = self.cv(b) { return self.shl_k(a, k.min(1000) as u32); } self.mk(Op::Shl, w, a, b, NIL) }
    pub fn lshr(&mut self, a: E, b: E) -> E { let w = self.w(a); if let Some(k) = self.cv(b) { return self.lshr_k(a, k.min(1000) as u32); } self.mk(Op::LShr, w, a, b, NIL) }
    pub fn ashr(&mut self, a: E, b: E) -> E { let w = self.w(a); if let Some(k) = self.cv(b) { return self.ashr_k(a, k.min(1000) as u32); } self.mk(Op::AShr, w, a, b, NIL) }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a); if aw == w { return a; }
        if let Some(x) = self.cv(a) { return self.c(x, w); }
        match self.nd(a).op.clone() {
            Op::ZExt => { let x = self.nd(a).a; return self.zext(x, w); }
            Op::Extract(0) => { let x = self.nd(a).a; if self.nd(x).hi <= mask(aw) { let xw = self.w(x); if xw == w { return x; } if xw < w { return self.zext(x, w); } return self.extract(x, 0, w); } }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, NIL, NIL)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a); if aw == w { return a; }
        if let Some(x) = self.cv(a) { return self.c(sx(x, aw) as u128, w); }
        if self.nd(a).hi >> (aw - 1) == 0 { return self.zext(a, w); }
        if let Op::SExt = self.nd(a).op { let x = self.nd(a).a; return self.sext(x, w); }
        self.mk(Op::SExt, w, a, NIL, NIL)
    }
    pub fn extract(&mut self, a: E, lo: u32, n: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + n <= aw);
        if lo == 0 && n == aw { return a; }
        if let Some(x) = self.cv(a) { return self.c(x >> lo, n); }
        if (self.nd(a).ones >> lo) & mask(n) == 0 { return self.c(0, n); }
        let (op, x, y, z) = { let q = self.nd(a); (q.op.clone(), q.a, q.b, q.c) };
        match op {
            Op::Extract(l2) => return self.extract(x, l2 + lo, n),
            Op::ZExt => { let xw = self.w(x); if lo >= xw { return self.c(0, n); } if lo + n <= xw { return self.extract(x, lo, n); } let e = self.extract(x, lo, xw - lo); return self.zext(e, n); }
            Op::SExt => { let xw = self.w(x); if lo + n <= xw { return self.extract(x, lo, n); } if lo < xw { let e = self.extract(x, lo, xw - lo); return self.sext(e, n); } }
            Op::Concat => { let k = self.w(y); if lo >= k { return self.extract(x, lo - k, n); } if lo + n <= k { return self.extract(y, lo, n); } let h = self.extract(x, 0, lo + n - k); let l = self.extract(y, lo, k - lo); return self.concat(h, l); }
            Op::Ite => { if self.cv(y).is_some() || self.cv(z).is_some() || n == 1 { let p = self.extract(y, lo, n); let q = self.extract(z, lo, n); return self.ite(x, p, q); } }
            Op::And | Op::Or | Op::Xor => { let p = self.extract(x, lo, n); let q = self.extract(y, lo, n); return match op { Op::And => self.and(p, q), Op::Or => self.or(p, q), _ => self.xor(p, q) }; }
            _ => {}
        }
        self.mk(Op::Extract(lo), n, a, NIL, NIL)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l)); let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.c((x << lw) | y, w); }
        if self.cv(h) == Some(0) { return self.zext(l, w); }
        let (hop, ha) = (self.nd(h).op.clone(), self.nd(h).a);
        match (&hop, &self.nd(l).op) {
            (Op::Extract(p), Op::Extract(q)) if ha == self.nd(l).a && *p == q + lw => { let q = *q; return self.extract(ha, q, w); }
            (Op::ZExt, _) => { let x = self.concat(ha, l); return self.zext(x, w); }
            (Op::Concat, Op::C(y)) => { let (p, q) = (ha, self.nd(h).b); if let Some(k) = self.cv(q) { let qw = self.w(q); let nc = self.c((k << lw) | *y, qw + lw); return self.concat(p, nc); } }
            (Op::Concat, Op::Extract(q)) => { let (p, hb) = (ha, self.nd(h).b); if let Op::Extract(r) = self.nd(hb).op { if self.nd(hb).a == self.nd(l).a && r == q + lw { let q = *q; let x = self.nd(l).a; let bw = self.w(hb) + lw; let m = self.extract(x, q, bw); return self.concat(p, m); } } }
            _ => {}
        }
        self.mk(Op::Concat, w, h, l, NIL)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cv(c) { return if x != 0 { a } else { b }; }
        if a == b { return a; }
        if let Op::Not = self.nd(c).op { let d = self.nd(c).a; return self.ite(d, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b), (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a), (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if w == 0 { return self.mk(Op::IIte, 0, c, a, b); }
        if let (Some(1), Some(0)) = (self.cv(a), self.cv(b)) { return self.zext(c, w); }
        if let (Some(0), Some(1)) = (self.cv(a), self.cv(b)) { let n = self.not(c); return self.zext(n, w); }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.hi < nb.lo || nb.hi < na.lo { return self.fls(); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.c((x == y) as u128, 1); }
            if y & !na.ones != 0 { return self.fls(); }
            if na.w == 1 { return if y == 1 { a } else { self.not(a) }; }
            match na.op {
                Op::ZExt => { let x = na.a; let xw = self.w(x); if y > mask(xw) { return self.fls(); } let k = self.c(y, xw); return self.eq(x, k); }
                Op::SExt => { let x = na.a; let xw = self.w(x); let k = self.c(y, xw); if sx(y & mask(xw), xw) as u128 & mask(na.w) != y { return self.fls(); } return self.eq(x, k); }
                Op::Add => { if let Some(k) = self.cv(na.b) { let kk = self.c(y.wrapping_sub(k), na.w); return self.eq(na.a, kk); } }
                Op::Xor => { if let Some(k) = self.cv(na.b) { let kk = self.c(y ^ k, na.w); return self.eq(na.a, kk); } }
                Op::Ite => { if self.cv(na.b).is_some() || self.cv(na.c).is_some() { let p = self.eq(na.b, b); let q = self.eq(na.c, b); return self.ite(na.a, p, q); } }
                Op::Concat => { let lw = self.w(na.b); let hw = self.w(na.a); let kh = self.c(y >> lw, hw); let kl = self.c(y, lw); let p = self.eq(na.a, kh); let q = self.eq(na.b, kl); return self.and(p, q); }
                Op::Sub => { if y == 0 { return self.eq(na.a, na.b); } }
                _ => {}
            }
        } else {
            if let (Op::ZExt, Op::ZExt) = (&na.op, &nb.op) { if self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); } }
        }
        let (a, b) = if self.cv(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, NIL)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let (na, nb) = (self.nd(a).clone(), self.nd(b).clone());
        if na.hi < nb.lo { return self.tru(); }
        if na.lo >= nb.hi { return self.fls(); }
        if let Some(y) = self.cv(b) { if y == 1 { let z = self.c(0, na.w); return self.eq(a, z); } if na.lo + 1 == y { let k = self.c(na.lo, na.w); return self.eq(a, k); } }
        if let Some(x) = self.cv(a) { if x + 1 == nb.hi { let k = self.c(nb.hi, na.w); return self.eq(b, k); } if x == nb.lo { let k = self.c(x, na.w); let e = self.eq(b, k); return self.not(e); } }
        // narrow
        let aw = if let Op::ZExt = na.op { self.w(na.a) } else if let Op::C(v) = na.op { bitlen(v).max(1) } else { na.w };
        let bw = if let Op::ZExt = nb.op { self.w(nb.a) } else if let Op::C(v) = nb.op { bitlen(v).max(1) } else { nb.w };
        let nw = aw.max(bw);
        if nw < na.w { let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw); return self.ult(x, y); }
        // constant versus concatenation with a constant low part
        if let (Some(y), Op::Concat) = (self.cv(b), &na.op) { let lw = self.w(na.b); if y & mask(lw) == 0 { let k = self.c(y >> lw, na.w - lw); return self.ult(na.a, k); } }
        if let (Some(x), Op::Concat) = (self.cv(a), &nb.op) { let lw = self.w(nb.b); if x & mask(lw) == mask(lw) { let k = self.c(x >> lw, na.w - lw); return self.ult(k, nb.a); } }
        self.mk(Op::Ult, 1, a, b, NIL)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.c((sx(x, w) < sx(y, w)) as u128, 1); }
        let half = 1u128 << (w - 1);
        let (ha, hb) = (self.nd(a).hi, self.nd(b).hi);
        if ha < half && hb < half { return self.ult(a, b); }
        if self.nd(a).lo >= half && self.nd(b).lo >= half { return self.ult(a, b); }
        if ha < half && self.nd(b).lo >= half { return self.fls(); }
        if self.nd(a).lo >= half && hb < half { return self.tru(); }
        if self.cv(b) == Some(0) { return self.sign(a); }
        if self.cv(a) == Some(mask(w)) { let s = self.sign(b); return self.not(s); }
        if let (Op::SExt, Op::SExt) = (&self.nd(a).op, &self.nd(b).op) { let (x, y) = (self.nd(a).a, self.nd(b).a); if self.w(x) == self.w(y) { return self.slt(x, y); } }
        self.mk(Op::Slt, 1, a, b, NIL)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }

    // ---------------------------------------------------------- integers
    pub fn iname(&mut self, a: E) -> E { if self.icv(a).is_some() { return a; } self.mk(Op::IName, 0, a, NIL, NIL) }
    pub fn ic(&mut self, v: Big) -> E { self.mk(Op::IC(v), 0, NIL, NIL, NIL) }
    pub fn iofbv(&mut self, a: E) -> E { if let Some(x) = self.cv(a) { return self.ic(Big::from(x)); } self.mk(Op::IOfBV, 0, a, NIL, NIL) }
    pub fn iadd(&mut self, a: E, b: E) -> E { if let (Some(x), Some(y)) = (self.icv(a), self.icv(b)) { return self.ic(x.add(&y)); } if self.icv(a).map_or(false, |x| x.is_zero()) { return b; } if self.icv(b).map_or(false, |x| x.is_zero()) { return a; } let (a, b) = if a <= b { (a, b) } else { (b, a) }; self.mk(Op::IAdd, 0, a, b, NIL) }
    pub fn isub(&mut self, a: E, b: E) -> E { if a == b { return self.ic(Big::zero()); } if let (Some(x), Some(y)) = (self.icv(a), self.icv(b)) { return self.ic(x.sub(&y)); } if self.icv(b).map_or(false, |x| x.is_zero()) { return a; } self.mk(Op::ISub, 0, a, b, NIL) }
    pub fn imul(&mut self, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.icv(a), self.icv(b)) { return self.ic(x.mul(&y)); }
        for (x, y) in [(a, b), (b, a)] { if let Some(k) = self.icv(x) { if k.is_zero() { return x; } if k.is_one() { return y; } } }
        let (a, b) = if a <= b { (a, b) } else { (b, a) }; self.mk(Op::IMul, 0, a, b, NIL)
    }
    /// largest power of two that divides the term by its shape
    fn twos(&self, e: E, depth: u32) -> usize {
        if depth == 0 { return 0; }
        let n = self.nd(e);
        match &n.op {
            Op::IC(c) => if c.is_zero() { 100_000 } else { let mut k = 0; for l in &c.mag { if *l == 0 { k += 32; } else { k += l.trailing_zeros() as usize; break; } } k },
            Op::IMul => (self.twos(n.a, depth - 1) + self.twos(n.b, depth - 1)).min(100_000),
            Op::IAdd | Op::ISub => { let k = self.twos(n.a, depth - 1); if k == 0 { 0 } else { k.min(self.twos(n.b, depth - 1)) } }
            _ => 0,
        }
    }
    fn div2(&mut self, e: E, k: usize, depth: u32) -> E {
        if k == 0 { return e; }
        let n = self.nd(e); let (a, b) = (n.a, n.b);
        match &n.op {
            Op::IC(c) => { let p = Big::pow2(k); let q = c.divmod_floor(&p).0; self.ic(q) }
            Op::IMul => { let t = self.twos(a, depth - 1).min(k); let x = self.div2(a, t, depth - 1); let y = self.div2(b, k - t, depth - 1); self.imul(x, y) }
            Op::IAdd => { let x = self.div2(a, k, depth - 1); let y = self.div2(b, k, depth - 1); self.iadd(x, y) }
            Op::ISub => { let x = self.div2(a, k, depth - 1); let y = self.div2(b, k, depth - 1); self.isub(x, y) }
            _ => unreachable!(),
        }
    }
    /// floor(a / b); b must be positive wherever this matters
    pub fn idiv(&mut self, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.icv(a), self.icv(b)) { if !y.neg && !y.is_zero() { return self.ic(x.divmod_floor(&y).0); } }
        if self.icv(b).map_or(false, |x| x.is_one()) { return a; }
        // floor(floor(x / d) / b) = floor(x / (d b))
        if let Op::IDiv = self.nd(a).op { let (x, d) = (self.nd(a).a, self.nd(a).b); let db = self.imul(d, b); return self.idiv(x, db); }
        // a common power of two cancels
        let k = self.twos(b, 40); let k = if k == 0 { 0 } else { k.min(self.twos(a, 40)) };
        if k > 0 && k < 100_000 { let x = self.div2(a, k, 40); let y = self.div2(b, k, 40); return self.idiv(x, y); }
        self.mk(Op::IDiv, 0, a, b, NIL)
    }
    pub fn ieq(&mut self, a: E, b: E) -> E { if a == b { return self.tru(); } if let (Some(x), Some(y)) = (self.icv(a), self.icv(b)) { return self.c((x == y) as u128, 1); } let (a, b) = if a <= b { (a, b) } else { (b, a) }; self.mk(Op::IEq, 1, a, b, NIL) }
    pub fn ilt(&mut self, a: E, b: E) -> E { if a == b { return self.fls(); } if let (Some(x), Some(y)) = (self.icv(a), self.icv(b)) { return self.c((x < y) as u128, 1); } self.mk(Op::ILt, 1, a, b, NIL) }
    pub fn tobv(&mut self, a: E, w: u32) -> E { if let Some(x) = self.icv(a) { return self.c(x.mod_pow2(w as usize), w); } if let Op::IOfBV = self.nd(a).op { let x = self.nd(a).a; let xw = self.w(x); return if xw >= w { self.extract(x, 0, w) } else { self.zext(x, w) }; } self.mk(Op::ToBV, w, a, NIL, NIL) }
    pub fn uf(&mut self, id: u32, w: u32, a: E, b: E, c: E) -> E { self.mk(Op::UF(id), w, a, b, c) }

    // ---------------------------------------------------------- evaluation
    pub fn eval(&self, e: E, m: &Model) -> EV {
        if let Some(v) = m.memo.borrow().get(&e) { return v.clone(); }
        let n = self.nd(e);
        let w = n.w; let mk = mask(w);
        let bv = |x: E| self.eval(x, m).b();
        let iv = |x: E| -> Big { self.eval(x, m).i().clone() };
        let r = match &n.op {
            Op::C(x) => EV::B(*x),
            Op::V(i) => EV::B(m.vals.get(i).map(|v| v.to_u128().unwrap_or(0)).unwrap_or(0) & mk),
            Op::Add => EV::B(bv(n.a).wrapping_add(bv(n.b)) & mk),
            Op::Sub => EV::B(bv(n.a).wrapping_sub(bv(n.b)) & mk),
            Op::Mul => EV::B(bv(n.a).wrapping_mul(bv(n.b)) & mk),
            Op::UDiv => { let d = bv(n.b); EV::B(if d == 0 { 0 } else { bv(n.a) / d }) }
            Op::URem => { let d = bv(n.b); EV::B(if d == 0 { 0 } else { bv(n.a) % d }) }
            Op::And => EV::B(bv(n.a) & bv(n.b)), Op::Or => EV::B(bv(n.a) | bv(n.b)), Op::Xor => EV::B(bv(n.a) ^ bv(n.b)),
            Op::Shl => { let k = bv(n.b); EV::B(if k >= w as u128 { 0 } else { (bv(n.a) << k) & mk }) }
            Op::LShr => { let k = bv(n.b); EV::B(if k >= w as u128 { 0 } else { bv(n.a) >> k }) }
            Op::AShr => { let k = bv(n.b).min(w as u128 - 1); EV::B((sx(bv(n.a), w) >> k) as u128 & mk) }
            Op::ZExt => EV::B(bv(n.a)),
            Op::SExt => EV::B(sx(bv(n.a), self.w(n.a)) as u128 & mk),
            Op::Extract(lo) => EV::B((bv(n.a) >> lo) & mk),
            Op::Concat => EV::B((bv(n.a) << self.w(n.b)) | bv(n.b)),
            Op::Ite => EV::B(if bv(n.a) != 0 { bv(n.b) } else { bv(n.c) }),
            Op::Not => EV::B(1 - bv(n.a)),
            Op::Eq => EV::B((bv(n.a) == bv(n.b)) as u128),
            Op::Ult => EV::B((bv(n.a) < bv(n.b)) as u128),
            Op::Slt => { let aw = self.w(n.a); EV::B((sx(bv(n.a), aw) < sx(bv(n.b), aw)) as u128) }
            Op::IC(x) => EV::I(x.clone()),
            Op::IV(i) => EV::I(m.vals.get(i).cloned().unwrap_or(Big::zero())),
            Op::IAdd => EV::I(iv(n.a).add(&iv(n.b))), Op::ISub => EV::I(iv(n.a).sub(&iv(n.b))), Op::IMul => EV::I(iv(n.a).mul(&iv(n.b))),
            Op::IDiv => { let d = iv(n.b); EV::I(if d.is_zero() || d.neg { Big::zero() } else { iv(n.a).divmod_floor(&d).0 }) }
            Op::IOfBV => EV::I(Big::from(bv(n.a))),
            Op::IName => EV::I(iv(n.a)),
            Op::IIte => EV::I(if bv(n.a) != 0 { iv(n.b) } else { iv(n.c) }),
            Op::IEq => EV::B((iv(n.a) == iv(n.b)) as u128), Op::ILt => EV::B((iv(n.a) < iv(n.b)) as u128),
            Op::ToBV => EV::B(iv(n.a).mod_pow2(w as usize)),
            Op::UF(1) => { let (mut x, mut y) = (iv(n.a).abs(), iv(n.b).abs()); while !y.is_zero() { let r = x.divmod_floor(&y).1; x = y; y = r; } EV::I(x) }
            Op::UF(_) => { if w == 0 { EV::I(m.uf.get(&e).cloned().unwrap_or(Big::zero())) } else { EV::B(m.uf.get(&e).and_then(|x| x.to_u128()).unwrap_or(0) & mk) } }
        };
        m.memo.borrow_mut().insert(e, r.clone());
        r
    }
    /// interval of an integer term
    pub fn irange(&self, e: E, memo: &mut HashMap<E, (Option<Big>, Option<Big>)>) -> (Option<Big>, Option<Big>) {
        if let Some(r) = memo.get(&e) { return r.clone(); }
        let n = self.nd(e);
        let r = match &n.op {
            Op::IC(x) => (Some(x.clone()), Some(x.clone())),
            Op::IV(i) => (self.vars[*i as usize].ilo.clone(), self.vars[*i as usize].ihi.clone()),
            Op::IOfBV => { let q = self.nd(n.a); (Some(Big::from(q.lo)), Some(Big::from(q.hi))) }
            Op::IAdd => { let a = self.irange(n.a, memo); let b = self.irange(n.b, memo); (a.0.zip(b.0).map(|(x, y)| x.add(&y)), a.1.zip(b.1).map(|(x, y)| x.add(&y))) }
            Op::ISub => { let a = self.irange(n.a, memo); let b = self.irange(n.b, memo); (a.0.zip(b.1).map(|(x, y)| x.sub(&y)), a.1.zip(b.0).map(|(x, y)| x.sub(&y))) }
            Op::IMul => {
                let a = self.irange(n.a, memo); let b = self.irange(n.b, memo);
                if let ((Some(al), Some(ah)), (Some(bl), Some(bh))) = (a, b) { let c = [al.mul(&bl), al.mul(&bh), ah.mul(&bl), ah.mul(&bh)]; (c.iter().min().cloned(), c.iter().max().cloned()) } else { (None, None) }
            }
            Op::IName => self.irange(n.a, memo),
            Op::IIte => { let a = self.irange(n.b, memo); let b = self.irange(n.c, memo); (a.0.zip(b.0).map(|(x, y)| x.min(y)), a.1.zip(b.1).map(|(x, y)| x.max(y))) }
            Op::IDiv => { let a = self.irange(n.a, memo); let b = self.irange(n.b, memo); match (a, b) { ((Some(al), Some(ah)), (Some(bl), _)) if !bl.neg && !bl.is_zero() => { let l = if al.neg { al.divmod_floor(&bl).0 } else { Big::zero() }; let h = if ah.neg { Big::zero() } else { ah.divmod_floor(&bl).0 }; (Some(l), Some(h)) } _ => (None, None) } }
            _ => (None, None),
        };
        memo.insert(e, r.clone());
        r
    }
}

pub struct Model { pub vals: HashMap<u32, Big>, pub uf: HashMap<E, Big>, pub memo: std::cell::RefCell<HashMap<E, EV>> }
impl Model { pub fn new(vals: HashMap<u32, Big>) -> Model { Model { vals, uf: HashMap::new(), memo: Default::default() } } }
