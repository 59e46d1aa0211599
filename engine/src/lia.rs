//! Translation of terms to integer polynomials over "atoms" with exact machine semantics:
//! wrap-around, shifts, masks and truncations become floor-division atoms  q = floor(p / 2^k)  with
//! 0 <= p - 2^k q < 2^k, so a query is (linear) integer arithmetic over atoms and product monomials.
use crate::big::Big;
use crate::expr::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::rc::Rc;

pub type Mono = Vec<u32>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly { pub t: Vec<(Mono, Big)> }
type PR = Rc<Poly>;

#[derive(Clone, Debug)]
pub enum AtomKind { Var(E), Floor(PR, Big), DivQ(PR, PR), IfThenElse(E, PR, PR), Bool(E), Opaque(E), Uf(E), Def(PR), QR(PR, Big, u32), R }
pub struct Atom { pub kind: AtomKind, pub lo: Option<Big>, pub hi: Option<Big> }

pub struct Lia {
    pub atoms: Vec<Atom>,
    pub memo: HashMap<E, PR>,
    floor_key: HashMap<(PR, Big), PR>,
    div_key: HashMap<(PR, PR), u32>,
    ite_key: HashMap<(E, PR, PR), u32>,
    bool_key: HashMap<E, u32>,
    pub known: HashMap<PR, (Big, Big)>,
    gcd_key: HashMap<(PR, PR), u32>,
    pub sparse: bool, qr: HashMap<(PR, Big), (u32, u32)>,
}

impl Poly {
    pub fn konst(c: Big) -> Poly { Poly { t: if c.is_zero() { vec![] } else { vec![(vec![], c)] } } }
    pub fn atom(a: u32) -> Poly { Poly { t: vec![(vec![a], Big::one())] } }
    pub fn as_const(&self) -> Option<Big> { match self.t.len() { 0 => Some(Big::zero()), 1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()), _ => None } }
    pub fn add_scaled(&self, o: &Poly, k: &Big) -> Poly {
        if k.is_zero() || o.t.is_empty() { return self.clone(); }
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let ord = if i >= self.t.len() { std::cmp::Ordering::Greater } else if j >= o.t.len() { std::cmp::Ordering::Less } else { self.t[i].0.cmp(&o.t[j].0) };
            match ord {
                std::cmp::Ordering::Less => { r.push(self.t[i].clone()); i += 1; }
                std::cmp::Ordering::Greater => { r.push((o.t[j].0.clone(), o.t[j].1.mul(k))); j += 1; }
                std::cmp::Ordering::Equal => { let c = self.t[i].1.add(&o.t[j].1.mul(k)); if !c.is_zero() { r.push((self.t[i].0.clone(), c)); } i += 1; j += 1; }
            }
        }
        Poly { t: r }
    }
    pub fn add(&self, o: &Poly) -> Poly { self.add_scaled(o, &Big::one()) }
    pub fn sub(&self, o: &Poly) -> Poly { self.add_scaled(o, &Big::from_i128(-1)) }
    pub fn scale(&self, k: &Big) -> Poly { if k.is_zero() { return Poly { t: vec![] }; } Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect() } }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() { return o.scale(&c); }
        if let Some(c) = o.as_const() { return self.scale(&c); }
        let mut r: BTreeMap<Mono, Big> = BTreeMap::new();
        for (m1, c1) in &self.t { for (m2, c2) in &o.t {
            let mut m = m1.clone(); m.extend_from_slice(m2); m.sort_unstable();
            let c = c1.mul(c2);
            match r.get_mut(&m) { Some(x) => { *x = x.add(&c); } None => { r.insert(m, c); } }
        } }
        Poly { t: r.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
    }
}

fn sign_norm(p: &Poly) -> Poly { match p.t.last() { Some((_, c)) if c.neg => p.scale(&Big::from_i128(-1)), _ => p.clone() } }
pub type Iv = (Option<Big>, Option<Big>);

impl Lia {
    pub fn new() -> Lia { Lia { atoms: vec![], memo: HashMap::new(), floor_key: HashMap::new(), div_key: HashMap::new(), ite_key: HashMap::new(), bool_key: HashMap::new(), known: HashMap::new(), sparse: false, qr: HashMap::new(), gcd_key: HashMap::new() } }
    fn new_atom(&mut self, kind: AtomKind, lo: Option<Big>, hi: Option<Big>) -> u32 { self.atoms.push(Atom { kind, lo, hi }); self.atoms.len() as u32 - 1 }
    pub fn mono_iv(&self, m: &Mono) -> Iv {
        let mut lo = Some(Big::one()); let mut hi = Some(Big::one());
        for a in m {
            let at = &self.atoms[*a as usize];
            match (&lo, &hi, &at.lo, &at.hi) {
                (Some(l), Some(h), Some(x), Some(y)) => { let c = [l.mul(x), l.mul(y), h.mul(x), h.mul(y)]; lo = c.iter().min().cloned(); hi = c.iter().max().cloned(); }
                (Some(l), _, Some(x), _) if !l.neg && !x.neg => { lo = Some(l.mul(x)); hi = None; }
                _ => { lo = None; hi = None; }
            }
        }
        if m.len() == 2 && m[0] == m[1] { if let Some(l) = &lo { if l.neg { lo = Some(Big::zero()); } } else { lo = Some(Big::zero()); } }
        (lo, hi)
    }
    pub fn iv(&self, p: &Poly) -> Iv {
        let mut lo = Some(Big::zero()); let mut hi = Some(Big::zero());
        for (m, c) in &p.t {
            let (l, h) = if m.len() == 0 { (Some(Big::one()), Some(Big::one())) } else if m.len() == 1 { let a = &self.atoms[m[0] as usize]; (a.lo.clone(), a.hi.clone()) } else { self.mono_iv(m) };
            let (l, h) = if c.neg { (h, l) } else { (l, h) };
            lo = lo.zip(l).map(|(x, y)| x.add(&y.mul(c)));
            hi = hi.zip(h).map(|(x, y)| x.add(&y.mul(c)));
        }
        (lo, hi)
    }
    /// sparse form: quotient and remainder of p by d, the remainder as an atom of its own
    fn divmod(&mut self, p: &Poly, d: &Big) -> (Poly, Poly) {
        // whole multiples of d leave at once
        let (mut q, mut rest) = (vec![], vec![]);
        for (m, c) in &p.t { let (c1, c0) = c.divmod_trunc(d); if c0.is_zero() { q.push((m.clone(), c1)); } else { rest.push((m.clone(), c.clone())); } }
        let a = Poly { t: q }; let rest = Poly { t: rest };
        let (mut lo, mut hi) = self.iv(&rest);
        if let Some((l, h)) = self.known.get(&rest) { lo = Some(match lo { Some(x) if x > *l => x, _ => l.clone() }); hi = Some(match hi { Some(x) if x < *h => x, _ => h.clone() }); }
        let ql = lo.map(|x| x.divmod_floor(d).0); let qh = hi.map(|x| x.divmod_floor(d).0);
        if ql.is_some() && ql == qh { let k = ql.unwrap(); let r = rest.sub(&Poly::konst(k.mul(d))); return (a.add(&Poly::konst(k)), r); }
        let key = (Rc::new(rest), d.clone());
        let (qa, ra) = match self.qr.get(&key) { Some(x) => *x, None => {
            let ra = self.new_atom(AtomKind::R, Some(Big::zero()), Some(d.sub(&Big::one())));
            let qa = self.new_atom(AtomKind::QR(key.0.clone(), d.clone(), ra), ql, qh);
            self.atoms[ra as usize].kind = AtomKind::QR(key.0.clone(), d.clone(), qa); // either pulls in the other
            self.qr.insert(key, (qa, ra)); (qa, ra) } };
        (a.add(&Poly::atom(qa)), Poly::atom(ra))
    }
    /// floor(p / 2^k) as a polynomial
    pub fn floor(&mut self, p: &Poly, d: &Big) -> PR {
        if self.sparse { return Rc::new(self.divmod(p, d).0); }
        let key = (Rc::new(p.clone()), d.clone());
        if let Some(r) = self.floor_key.get(&key) { return r.clone(); }
        let mut q = vec![]; let mut rest = vec![];
        for (m, c) in &p.t {
            let (c1, c0) = c.divmod_trunc(d);
            if !c1.is_zero() { q.push((m.clone(), c1)); }
            if !c0.is_zero() { rest.push((m.clone(), c0)); }
        }
        let a = Poly { t: q }; let rest = Poly { t: rest };
        let (mut lo, mut hi) = self.iv(&rest);
        if let Some((l, h)) = self.known.get(&rest) { lo = Some(match lo { Some(x) if x > *l => x, _ => l.clone() }); hi = Some(match hi { Some(x) if x < *h => x, _ => h.clone() }); }
        let ql = lo.map(|x| x.divmod_floor(d).0); let qh = hi.map(|x| x.divmod_floor(d).0);
        let fr = if ql.is_some() && ql == qh { Poly::konst(ql.unwrap()) } else {
            let rk = (Rc::new(rest.clone()), d.clone());
            match self.floor_key.get(&rk) { Some(x) => (**x).clone(), None => {
                let at = self.new_atom(AtomKind::Floor(rk.0.clone(), d.clone()), ql, qh);
                let pa = Poly::atom(at); self.floor_key.insert(rk, Rc::new(pa.clone())); pa } }
        };
        let r = Rc::new(a.add(&fr));
        self.floor_key.insert(key, r.clone());
        r
    }
    fn modp(&mut self, p: &Poly, w: u32) -> Poly { // p mod 2^w
        let d = Big::pow2(w as usize);
        let (lo, hi) = self.iv(p);
        if let (Some(l), Some(h)) = (lo, hi) { if !l.neg && h < d { return p.clone(); } }
        if self.sparse { return self.divmod(p, &d).1; }
        let q = self.floor(p, &d);
        let r = p.add_scaled(&q, &d.neg());
        r
    }
    /// signed reading of a bit-vector polynomial
    fn signed(&mut self, cx: &mut Ctx, e: E) -> Poly {
        let w = cx.w(e); let p = self.poly(cx, e);
        if cx.nd(e).hi >> (w - 1) == 0 { return (*p).clone(); }
        if cx.nd(e).lo >> (w - 1) == 1 { return p.sub(&Poly::konst(Big::pow2(w as usize))); }
        let s = self.floor(&p, &Big::pow2(w as usize - 1));
        p.add_scaled(&s, &Big::pow2(w as usize).neg())
    }
    pub fn bool01(&mut self, cx: &mut Ctx, e: E) -> Poly {
        if let Some(c) = cx.cv(e) { return Poly::konst(Big::from(c)); }
        if let Op::Not = cx.nd(e).op { let x = cx.nd(e).a; let p = self.bool01(cx, x); return Poly::konst(Big::one()).sub(&p); }
        if matches!(cx.nd(e).op, Op::Extract(_) | Op::V(_)) { return (*self.poly(cx, e)).clone(); }
        if let Some(a) = self.bool_key.get(&e) { return Poly::atom(*a); }
        let a = self.new_atom(AtomKind::Bool(e), Some(Big::zero()), Some(Big::one()));
        self.bool_key.insert(e, a); Poly::atom(a)
    }
    fn and_const(&mut self, p: &Poly, c: u128) -> Poly { // p & c, p in range
        let mut r = Poly { t: vec![] }; let mut i = 0;
        while i < 128 {
            if (c >> i) & 1 == 0 { i += 1; continue; }
            let st = i; while i < 128 && (c >> i) & 1 == 1 { i += 1; }
            let q = self.floor(p, &Big::pow2(st as usize));
            let m = self.modp(&q, (i - st) as u32);
            r = r.add_scaled(&m, &Big::pow2(st as usize));
        }
        r
    }
    pub fn poly(&mut self, cx: &mut Ctx, e: E) -> PR {
        if let Some(p) = self.memo.get(&e) { return p.clone(); }
        let n = cx.nd(e).clone(); let w = n.w;
        let p: Poly = match &n.op {
            Op::C(x) => Poly::konst(Big::from(*x)),
            Op::V(_) => { let a = self.new_atom(AtomKind::Var(e), Some(Big::zero()), Some(Big::from(mask(w)))); Poly::atom(a) }
            Op::Add => {
                let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); let mut s = a.add(&b);
                let (ra, rb) = (cx.nd(n.a).clone(), cx.nd(n.b).clone());
                let mut nowrap = ra.hi.checked_add(rb.hi).map_or(false, |h| h <= mask(w));
                if let Some(k) = cx.cv(n.b) { // negative constants read as subtraction
                    if k >> (w - 1) == 1 { s = s.sub(&Poly::konst(Big::pow2(w as usize))); nowrap = ra.lo >= (mask(w) - k) + 1; } }
                if nowrap { s } else { self.wrap(cx, e, s, w) }
            }
            Op::Sub => { let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); let s = a.sub(&b); if cx.nd(n.a).lo >= cx.nd(n.b).hi { s } else { self.wrap(cx, e, s, w) } }
            Op::Mul => {
                let a = self.poly(cx, n.a); let b = self.poly(cx, n.b);
                if a.t.len() * b.t.len() > 60000 { self.opaque(e, &n) }
                else { let s = a.mul(&b); if cx.nd(n.a).hi.checked_mul(cx.nd(n.b).hi).map_or(false, |h| h <= mask(w)) { s } else { self.wrap(cx, e, s, w) } }
            }
            Op::UDiv | Op::URem => {
                let a = self.poly(cx, n.a); let b = self.poly(cx, n.b);
                let q = self.divq(&a, &b, cx.nd(n.a).hi);
                if n.op == Op::UDiv { q } else if b.as_const().is_some() || a.t.len() * b.t.len() <= 60000 { a.sub(&q.mul(&b)) } else { self.opaque(e, &n) }
            }
            Op::And => { if w == 1 { self.bool01(cx, e) } else if let Some(c) = cx.cv(n.b) { let a = self.poly(cx, n.a); self.and_const(&a, c) } else { self.opaque(e, &n) } }
            Op::Or => {
                if w == 1 { self.bool01(cx, e) }
                else { let (oa, ob) = (cx.nd(n.a).ones, cx.nd(n.b).ones);
                    let a = self.poly(cx, n.a); let b = self.poly(cx, n.b);
                    if oa & ob == 0 { a.add(&b) } else if let Some(c) = cx.cv(n.b) { let m = self.and_const(&a, c); a.add(&b).sub(&m) } else { self.opaque(e, &n) } }
            }
            Op::Xor => {
                if w == 1 { self.bool01(cx, e) }
                else if let Some(c) = cx.cv(n.b) { let a = self.poly(cx, n.a); if c == mask(w) { Poly::konst(Big::from(c)).sub(&a) } else { let m = self.and_const(&a, c); a.add(&Poly::konst(Big::from(c))).add_scaled(&m, &Big::from_i128(-2)) } }
                else { self.opaque(e, &n) }
            }
            Op::ZExt => { (*self.poly(cx, n.a)).clone() }
            Op::SExt => { let s = self.signed(cx, n.a); self.wrap(cx, e, s, w) }
            Op::Extract(lo) => {
                let a = self.poly(cx, n.a);
                let q = if *lo > 0 { self.floor(&a, &Big::pow2(*lo as usize)) } else { a };
                if cx.nd(n.a).hi.checked_shr(*lo).unwrap_or(0) <= mask(w) { (*q).clone() } else { self.modp(&q, w) }
            }
            Op::Concat => { let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); let k = cx.w(n.b); b.add_scaled(&a, &Big::pow2(k as usize)) }
            Op::Ite => { let a = self.poly(cx, n.b); let b = self.poly(cx, n.c); self.itep(n.a, a, b, Some(Big::from(n.lo)), Some(Big::from(n.hi))) }
            Op::Not | Op::Eq | Op::Ult | Op::Slt | Op::IEq | Op::ILt => self.bool01(cx, e),
            Op::Shl | Op::LShr | Op::AShr => self.opaque(e, &n),
            Op::IC(x) => Poly::konst(x.clone()),
            Op::IV(i) => { let v = cx.vars[*i as usize].clone(); let a = self.new_atom(AtomKind::Var(e), v.ilo, v.ihi); Poly::atom(a) }
            Op::IAdd => { let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); a.add(&b) }
            Op::ISub => { let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); a.sub(&b) }
            Op::IMul => { let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); a.mul(&b) }
            Op::IDiv => { let a = self.poly(cx, n.a); let b = self.poly(cx, n.b); if let Some(d) = b.as_const() { if !d.neg && !d.is_zero() { (*self.floor(&a, &d)).clone() } else { self.opaque(e, &n) } } else { self.divq_int(&a, &b) } }
            Op::IOfBV => (*self.poly(cx, n.a)).clone(),
            Op::IName => { let a = self.poly(cx, n.a); if a.t.len() <= 1 { (*a).clone() } else { let (lo, hi) = self.iv(&a); let at = self.new_atom(AtomKind::Def(a), lo, hi); Poly::atom(at) } }
            Op::IIte => { let a = self.poly(cx, n.b); let b = self.poly(cx, n.c); self.itep(n.a, a, b, None, None) }
            Op::ToBV => { let a = self.poly(cx, n.a); self.modp(&a, w) }
            Op::UF(1) => { // gcd: symmetric, sign-insensitive
                let a = self.poly(cx, n.a); let b = self.poly(cx, n.b);
                let mut k = [sign_norm(&a), sign_norm(&b)]; k.sort_by(|x, y| x.t.cmp(&y.t));
                let k = (Rc::new(k[0].clone()), Rc::new(k[1].clone()));
                match self.gcd_key.get(&k) { Some(x) => Poly::atom(*x), None => { let at = self.new_atom(AtomKind::Uf(e), Some(Big::zero()), None); self.gcd_key.insert(k, at); Poly::atom(at) } }
            }
            Op::UF(_) => { let (lo, hi) = if w == 0 { (None, None) } else { (Some(Big::zero()), Some(Big::from(mask(w)))) }; let a = self.new_atom(AtomKind::Uf(e), lo, hi); Poly::atom(a) }
        };
        let r = Rc::new(p);
        if w > 0 && !self.known.contains_key(&r) { self.known.insert(r.clone(), (Big::from(cx.nd(e).lo), Big::from(cx.nd(e).hi))); }
        self.memo.insert(e, r.clone());
        r
    }
    fn wrap(&mut self, _cx: &mut Ctx, _e: E, p: Poly, w: u32) -> Poly { self.modp(&p, w) }
    fn opaque(&mut self, e: E, n: &Node) -> Poly { let a = self.new_atom(AtomKind::Opaque(e), Some(Big::from(n.lo)), Some(Big::from(n.hi))); Poly::atom(a) }
    fn divq(&mut self, a: &PR, b: &PR, ahi: u128) -> Poly {
        if let Some(d) = b.as_const() { if !d.is_zero() { return (*self.floor(a, &d)).clone(); } }
        let k = (a.clone(), b.clone());
        if let Some(x) = self.div_key.get(&k) { return Poly::atom(*x); }
        let at = self.new_atom(AtomKind::DivQ(a.clone(), b.clone()), Some(Big::zero()), Some(Big::from(ahi)));
        self.div_key.insert(k, at); Poly::atom(at)
    }
    /// monomials of `a` that are multiples of the single-term polynomial `b`
    fn split(&self, a: &PR, b: &PR) -> Option<(Poly, Poly)> {
        if b.t.len() != 1 || b.t[0].0.is_empty() { return None; }
        let (bm, bc) = &b.t[0];
        let (mut s, mut r) = (vec![], vec![]);
        'o: for (m, c) in &a.t {
            let mut rest = m.clone();
            for x in bm { match rest.iter().position(|y| y == x) { Some(i) => { rest.remove(i); } None => { r.push((m.clone(), c.clone())); continue 'o; } } }
            let (q, z) = c.divmod_trunc(bc);
            if !z.is_zero() { r.push((m.clone(), c.clone())); continue; }
            s.push((rest, q));
        }
        if s.is_empty() { return None; }
        s.sort_by(|x, y| x.0.cmp(&y.0));
        Some((Poly { t: s }, Poly { t: r }))
    }
    fn divq_int(&mut self, a: &PR, b: &PR) -> Poly {
        // floor((b*s + r) / b) = s + floor(r / b); the divisor is positive (asserted at the call)
        if let Some((s, r)) = self.split(a, b) { if let Some(c) = r.as_const() { if c.is_zero() { return s; } } let r = Rc::new(r); return s.add(&self.divq_int(&r, b)); }
        let k = (a.clone(), b.clone());
        if let Some(x) = self.div_key.get(&k) { return Poly::atom(*x); }
        let (lo, hi) = self.iv(a); let nn = lo.as_ref().map_or(false, |l| !l.neg);
        let at = self.new_atom(AtomKind::DivQ(a.clone(), b.clone()), if nn { Some(Big::zero()) } else { None }, if nn { hi } else { None });
        self.div_key.insert(k, at); Poly::atom(at)
    }
    fn itep(&mut self, c: E, a: PR, b: PR, lo: Option<Big>, hi: Option<Big>) -> Poly {
        let k = (c, a.clone(), b.clone());
        if let Some(x) = self.ite_key.get(&k) { return Poly::atom(*x); }
        let (al, ah) = self.iv(&a); let (bl, bh) = self.iv(&b);
        let l2 = al.zip(bl).map(|(x, y)| x.min(y)); let h2 = ah.zip(bh).map(|(x, y)| x.max(y));
        let lo = match (lo, l2) { (Some(x), Some(y)) => Some(x.max(y)), (x, y) => x.or(y) };
        let hi = match (hi, h2) { (Some(x), Some(y)) => Some(x.min(y)), (x, y) => x.or(y) };
        let at = self.new_atom(AtomKind::IfThenElse(c, a, b), lo, hi);
        self.ite_key.insert(k, at); Poly::atom(at)
    }
}

/// One SMT-LIB query in integer arithmetic.
pub struct Emit<'a> {
    pub l: &'a mut Lia, pub cx: &'a mut Ctx,
    pub out: String, decl: String,
    need: Vec<u32>, seen_atom: std::collections::HashSet<u32>,
    monos: HashMap<Mono, String>, mono_list: Vec<Mono>,
    bdef: HashMap<E, String>,
    pub nonlinear: bool, // emit real products
    pub has_mono: bool,
    prods: Vec<(String, String, String)>,
    done: usize,
}

impl<'a> Emit<'a> {
    pub fn new(l: &'a mut Lia, cx: &'a mut Ctx, nonlinear: bool) -> Emit<'a> { Emit { l, cx, out: String::new(), decl: String::new(), need: vec![], seen_atom: Default::default(), monos: HashMap::new(), mono_list: vec![], bdef: HashMap::new(), nonlinear, has_mono: false, prods: vec![], done: 0 } }
    pub fn num(c: &Big) -> String { if c.neg { format!("(- {})", c.abs()) } else { c.to_string() } }
    fn atom(&mut self, a: u32) -> String { if self.seen_atom.insert(a) { self.need.push(a); } format!("x{}", a) }
    fn mono(&mut self, m: &Mono) -> String {
        if m.len() == 1 { return self.atom(m[0]); }
        if let Some(s) = self.monos.get(m) { return s.clone(); }
        for a in m { self.atom(*a); }
        let s = format!("m{}", self.monos.len());
        self.has_mono = true;
        self.monos.insert(m.clone(), s.clone()); self.mono_list.push(m.clone());
        s
    }
    fn lin(&mut self, p: &Poly) -> String {
        if p.t.is_empty() { return "0".into(); }
        let mut parts = vec![];
        for (m, c) in &p.t {
            if m.is_empty() { parts.push(Self::num(c)); continue; }
            let v = self.mono(m);
            if c.is_one() { parts.push(v) } else { parts.push(format!("(* {} {})", Self::num(c), v)) }
        }
        if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) }
    }
    /// relation p REL 0 with REL in <=, <, =
    fn rel(&mut self, rel: &str, p: &Poly) -> String {
        if let Some(c) = p.as_const() { let b = match rel { "<=" => c.neg || c.is_zero(), "<" => c.neg, _ => c.is_zero() }; return b.to_string(); }
        let (lo, hi) = self.l.iv(p);
        match rel {
            "<=" => { if hi.as_ref().map_or(false, |h| h.neg || h.is_zero()) { return "true".into(); } if lo.as_ref().map_or(false, |l| !l.neg && !l.is_zero()) { return "false".into(); } }
            "<" => { if hi.as_ref().map_or(false, |h| h.neg) { return "true".into(); } if lo.as_ref().map_or(false, |l| !l.neg) { return "false".into(); } }
            _ => { if hi.as_ref().map_or(false, |h| h.neg) || lo.as_ref().map_or(false, |l| !l.neg && !l.is_zero()) { return "false".into(); } }
        }
        // move negative terms to the right hand side
        let pos = Poly { t: p.t.iter().filter(|x| !x.1.neg).cloned().collect() };
        let neg = Poly { t: p.t.iter().filter(|x| x.1.neg).map(|(m, c)| (m.clone(), c.neg())).collect() };
        let a = self.lin(&pos); let b = self.lin(&neg);
        format!("({} {} {})", rel, a, b)
    }
    pub fn boolean(&mut self, e: E) -> String {
        if let Some(c) = self.cx.cv(e) { return if c != 0 { "true".into() } else { "false".into() }; }
        if let Some(s) = self.bdef.get(&e) { return s.clone(); }
        let n = self.cx.nd(e).clone();
        let s = match &n.op {
            Op::Not => { let a = self.boolean(n.a); if a == "true" { "false".into() } else if a == "false" { "true".into() } else { format!("(not {})", a) } }
            Op::And => { let a = self.boolean(n.a); let b = self.boolean(n.b); format!("(and {} {})", a, b) }
            Op::Or => { let a = self.boolean(n.a); let b = self.boolean(n.b); format!("(or {} {})", a, b) }
            Op::Xor => { let a = self.boolean(n.a); let b = self.boolean(n.b); format!("(xor {} {})", a, b) }
            Op::Ite => { let a = self.boolean(n.a); let b = self.boolean(n.b); let c = self.boolean(n.c); format!("(ite {} {} {})", a, b, c) }
            Op::Eq if self.cx.w(n.a) == 1 => { let a = self.boolean(n.a); let b = self.boolean(n.b); format!("(= {} {})", a, b) }
            Op::Eq | Op::IEq => { let a = self.l.poly(self.cx, n.a); let b = self.l.poly(self.cx, n.b); let p = a.sub(&b); self.rel("=", &p) }
            Op::Ult | Op::ILt => { let a = self.l.poly(self.cx, n.a); let b = self.l.poly(self.cx, n.b); let p = a.sub(&b); self.rel("<", &p) }
            Op::Slt => { let a = self.l.signed(self.cx, n.a); let b = self.l.signed(self.cx, n.b); let p = a.sub(&b); self.rel("<", &p) }
            _ => { let p = self.l.poly(self.cx, e); let one = Poly::konst(Big::one()); let p = one.sub(&p); self.rel("=", &p) } // bit-vector of width 1 used as a boolean
        };
        if s.len() <= 60 || s == "true" || s == "false" { self.bdef.insert(e, s.clone()); return s; }
        let nm = format!("b{}", e);
        let _ = writeln!(self.out, "(define-fun {} () Bool {})", nm, s);
        self.bdef.insert(e, nm.clone());
        nm
    }
    pub fn assert_bool(&mut self, e: E) -> bool { // returns false when trivially false
        let s = self.boolean(e);
        if s == "false" { return false; }
        if s != "true" { let _ = writeln!(self.out, "(assert {})", s); }
        true
    }
    fn define_atoms(&mut self) {
        while self.done < self.need.len() {
            let a = self.need[self.done]; self.done += 1;
            let kind = self.l.atoms[a as usize].kind.clone();
            match kind {
                AtomKind::Var(_) | AtomKind::Opaque(_) | AtomKind::Uf(_) => {}
                AtomKind::R => {}
                AtomKind::QR(p, d, _) => { let (q, r) = self.l.qr[&(p.clone(), d.clone())];
                    if a == q || !self.seen_atom.contains(&q) { let s = self.rel("=", &p.sub(&Poly::atom(r)).add_scaled(&Poly::atom(q), &d.neg())); let _ = writeln!(self.out, "(assert {})", s); } }
                AtomKind::Def(p) => { let s = self.rel("=", &p.sub(&Poly::atom(a))); let _ = writeln!(self.out, "(assert {})", s); }
                AtomKind::Floor(p, d) => {
                    let r = p.add_scaled(&Poly::atom(a), &d.neg());
                    // 0 <= p - d*a < d
                    let s1 = self.rel("<=", &r.scale(&Big::from_i128(-1)));
                    let s2 = self.rel("<", &r.sub(&Poly::konst(d)));
                    let _ = writeln!(self.out, "(assert {})\n(assert {})", s1, s2);
                }
                AtomKind::DivQ(x, y) => {
                    let r = x.sub(&y.mul(&Poly::atom(a)));
                    let g = self.rel("<=", &y);
                    let s1 = self.rel("<=", &r.scale(&Big::from_i128(-1)));
                    let s2 = self.rel("<", &r.sub(&y));
                    if g == "false" { let _ = writeln!(self.out, "(assert {})\n(assert {})", s1, s2); }
                    else { let _ = writeln!(self.out, "(assert (or {} (and {} {})))", g, s1, s2); }
                }
                AtomKind::IfThenElse(c, p, q) => {
                    let cs = self.boolean(c);
                    let s1 = self.rel("=", &Poly::atom(a).sub(&p)); let s2 = self.rel("=", &Poly::atom(a).sub(&q));
                    let _ = writeln!(self.out, "(assert (ite {} {} {}))", cs, s1, s2);
                }
                AtomKind::Bool(e) => { let cs = self.boolean(e); let _ = writeln!(self.out, "(assert (= x{} (ite {} 1 0)))", a, cs); }
            }
        }
    }
    /// complete SMT-LIB text for the asserted booleans (without check-sat)
    pub fn finish(mut self) -> (String, Vec<(E, String)>, bool, Vec<(String, String, String)>) {
        self.define_atoms();
        let mut prods = vec![];
        // product of a named sum with another atom: link it to the distributed products
        let mut k = 0;
        while k < self.mono_list.len() && !self.nonlinear {
            let m = self.mono_list[k].clone(); k += 1;
            if m.len() != 2 { continue; }
            for (x, y) in [(m[0], m[1]), (m[1], m[0])] { if let AtomKind::Def(p) = self.l.atoms[x as usize].kind.clone() {
                let d = p.mul(&Poly::atom(y)); let mm = Poly { t: vec![(m.clone(), Big::one())] };
                let s = self.rel("=", &d.sub(&mm)); let _ = writeln!(self.out, "(assert {})", s);
                break;
            } }
        }
        self.define_atoms();
        let mut k = 0;
        while k < self.mono_list.len() { // prefixes of long monomials
            let m = self.mono_list[k].clone(); k += 1;
            if m.len() > 2 { let pre = m[..m.len() - 1].to_vec(); self.mono(&pre); }
        }
        let mut vars = vec![];
        for a in &self.need {
            let at = &self.l.atoms[*a as usize];
            let _ = writeln!(self.decl, "(declare-fun x{} () Int)", a);
            if let Some(l) = &at.lo { let _ = writeln!(self.decl, "(assert (<= {} x{}))", Self::num(l), a); }
            if let Some(h) = &at.hi { let _ = writeln!(self.decl, "(assert (<= x{} {}))", a, Self::num(h)); }
            match at.kind { AtomKind::Var(e) | AtomKind::Uf(e) => vars.push((e, format!("x{}", a))), _ => {} }
        }
        // bounds at which a quotient-like atom is cut by a floor atom: useful points for product lemmas
        let mut cuts: HashMap<u32, Vec<Big>> = HashMap::new();
        for a in &self.need { if let AtomKind::Floor(p, d) = &self.l.atoms[*a as usize].kind { for (m, c) in &p.t { if m.len() == 1 && c.is_one() { cuts.entry(m[0]).or_default().push(d.clone()); } } } }
        let mut list = self.mono_list.clone(); list.sort_by_key(|m| m.len());
        for m in &list {
            let nm = &self.monos[m];
            if self.nonlinear { let _ = writeln!(self.decl, "(define-fun {} () Int (* {}))", nm, m.iter().map(|a| format!("x{}", a)).collect::<Vec<_>>().join(" ")); }
            else {
                let _ = writeln!(self.decl, "(declare-fun {} () Int)", nm);
                let (lo, hi) = self.l.mono_iv(m);
                if let Some(l) = lo { let _ = writeln!(self.decl, "(assert (<= {} {}))", Self::num(&l), nm); }
                if let Some(h) = hi { let _ = writeln!(self.decl, "(assert (<= {} {}))", nm, Self::num(&h)); }
                let pre = m[..m.len() - 1].to_vec(); let q = m[m.len() - 1];
                let ln = if pre.len() == 1 { format!("x{}", pre[0]) } else { self.monos[&pre].clone() }; let rn = format!("x{}", q);
                let (pl, ph) = if pre.len() == 1 { let a = &self.l.atoms[pre[0] as usize]; (a.lo.clone(), a.hi.clone()) } else { self.l.mono_iv(&pre) };
                let (ql, qh) = { let a = &self.l.atoms[q as usize]; (a.lo.clone(), a.hi.clone()) };
                let nn = |l: &Option<Big>| l.as_ref().map_or(false, |l| !l.neg);
                if nn(&pl) && nn(&ql) {
                    let _ = writeln!(self.decl, "(assert (= (= {n} 0) (or (= {p} 0) (= {q} 0))))\n(assert (or (= {p} 0) (>= {n} {q})))\n(assert (or (= {q} 0) (>= {n} {p})))", n = nm, p = ln, q = rn);
                    if let Some(h) = &ph { let _ = writeln!(self.decl, "(assert (<= {} (* {} {})))", nm, h, rn); }
                    if ln != rn { if let Some(h) = &qh { let _ = writeln!(self.decl, "(assert (<= {} (* {} {})))", nm, h, ln); } }
                    if pre.len() == 1 { for (a, b) in [(pre[0], q), (q, pre[0])] { if let Some(cs) = cuts.get(&a) { for c in cs { // a >= c  <=>  a*b >= c*b  when b > 0
                        let _ = writeln!(self.decl, "(assert (or (< x{a} {c}) (>= {n} (* {c} x{b}))))\n(assert (or (>= x{a} {c}) (<= {n} (- (* {c} x{b}) x{b}))))", a = a, b = b, c = c, n = nm);
                    } } } }
                }
                prods.push((nm.clone(), ln, rn));
            }
        }
        let hm = self.has_mono; self.prods = prods;
        (format!("{}{}", self.decl, self.out), vars, hm, self.prods)
    }
}
