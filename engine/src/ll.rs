//! Parser for the subset of textual LLVM IR that rustc emits. Functions are parsed on demand.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Other(u32), Arr(u64, Box<Ty>), Struct(bool, Vec<Ty>), Vec(u64, Box<Ty>), Meta, Label }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4, Ty::Other(w) => (*w as u64 / 8).max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(packed, f) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4, Ty::Other(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => { let (offs, end) = self.layout(); let _ = offs; end }
            Ty::Vec(n, t) => n * t.size(),
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(packed, f) = self {
            let mut o = 0; let mut v = vec![];
            for t in f { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } v.push(o); o += t.size(); }
            if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
            (v, o)
        } else { (vec![], 0) }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, Ty::Other(w) => *w, _ => panic!("bits of {:?}", self) } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double | Ty::Other(_)) }
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(u128), Agg(Vec<Opd>), Undef }

#[derive(Clone, Debug)]
pub enum GepIdx { Const(i64), Scaled(Opd, u32 /*idx width*/, u64) }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opd) }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: &'static str, w: u32, a: Opd, b: Opd, vec: u64 },
    Cmp { pred: String, w: u32, a: Opd, b: Opd, vec: u64 },
    Cast { op: String, from: Ty, to: Ty, a: Opd },
    Select { c: Opd, ty: Ty, a: Opd, b: Opd, cvec: bool },
    Load { ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { base: Opd, idx: Vec<GepIdx> },
    Alloca { size: u64 },
    Phi { ty: Ty, inc: Vec<(Opd, String)> },
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Opd)>, normal: Option<String> },
    Extract { a: Opd, idx: Vec<usize> },
    Insert { a: Opd, ty: Ty, v: Opd, idx: Vec<usize> },
    Freeze { a: Opd },
    Br(String),
    CondBr { c: Opd, t: String, f: String },
    Switch { w: u32, v: Opd, def: String, cases: Vec<(u128, String)> },
    Ret(Option<(Ty, Opd)>),
    AtomicRmw { op: String, p: Opd, w: u32, v: Opd },
    CmpXchg { p: Opd, w: u32, cmp: Opd, new: Opd },
    ExtElem { a: Opd, i: Opd },
    InsElem { a: Opd, ty: Ty, v: Opd, i: Opd },
    Shuffle { a: Opd, b: Opd, n: u64, mask: Opd, mn: u64 },
    Fence,
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst { pub dst: Option<u32>, pub ins: Ins, pub text: u32 }

#[derive(Debug)]
pub struct Block { pub name: String, pub insts: Vec<Inst> }

#[derive(Debug)]
pub struct Func { pub name: String, pub nregs: usize, pub params: Vec<(Ty, u32)>, pub blocks: Vec<Block>, pub bidx: HashMap<String, usize>, pub lines: Vec<String> }

pub struct Global { pub addr: u64, pub size: u64, pub init: Option<(Ty, String)>, pub is_const: bool }

pub struct Module {
    pub fdefs: HashMap<String, (usize, usize)>,       // name -> line range [define .. }]
    pub fnames: HashMap<String, String>,              // mangled -> readable
    pub noreturn: HashMap<String, bool>,
    pub lines: Vec<String>,
    pub globals: HashMap<String, Global>,
    pub gaddr: Vec<(u64, u64, String)>,               // sorted by addr
    pub faddr: HashMap<String, u64>,
    pub fbyaddr: HashMap<u64, String>,
    pub cache: RefCell<HashMap<String, Rc<Func>>>,
}

// ---------------------------------------------------------------- tokenizer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), Loc(String), Glob(String), Num(String), Str(Vec<u8>), CStr(Vec<u8>), Meta(String), Attr(String), P(char), Dots }

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut r = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' { r.push(b'\\'); i += 2; continue; }
            let h = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap();
            r.push(h); i += 3;
        } else { r.push(b[i]); i += 1; }
    }
    r
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes(); let mut i = 0; let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' { i += 1; continue; }
        if c == b';' { // comment until end of line
            while i < b.len() && b[i] != b'\n' { i += 1; }
            continue;
        }
        if c == b'%' || c == b'@' || c == b'!' || c == b'#' {
            let st = i + 1; let mut e = st;
            let name;
            if e < b.len() && b[e] == b'"' {
                e += 1; let s0 = e; while b[e] != b'"' { e += 1; }
                name = s[s0..e].to_string(); e += 1;
            } else { while e < b.len() && idc(b[e]) { e += 1; } name = s[st..e].to_string(); }
            i = e;
            out.push(match c { b'%' => Tok::Loc(name), b'@' => Tok::Glob(name), b'!' => Tok::Meta(name), _ => Tok::Attr(name) });
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let s0 = if c == b'"' { i + 1 } else { i + 2 };
            let mut e = s0; while e < b.len() && b[e] != b'"' { e += 1; }
            if e >= b.len() { break; } // truncated text (only the leading type is wanted)
            let v = unescape(&b[s0..e]);
            out.push(if c == b'"' { Tok::Str(v) } else { Tok::CStr(v) });
            i = e + 1; continue;
        }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let st = i; i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || (b[i] == b'+' && b[i - 1] == b'e')) { i += 1; }
            out.push(Tok::Num(s[st..i].to_string())); continue;
        }
        if c == b'+' && (s[i..].starts_with("+inf") || s[i..].starts_with("+nan") || s[i..].starts_with("+qnan")) { let st = i; i += 1; while i < b.len() && idc(b[i]) { i += 1; } out.push(Tok::Id(s[st..i].to_string())); continue; }
        if c == b'.' && s[i..].starts_with("...") { out.push(Tok::Dots); i += 3; continue; }
        if idc(c) { let st = i; while i < b.len() && idc(b[i]) { i += 1; } out.push(Tok::Id(s[st..i].to_string())); continue; }
        out.push(Tok::P(c as char)); i += 1;
    }
    out
}

pub struct P<'a> { pub t: Vec<Tok>, pub i: usize, pub m: &'a Module, pub regs: Option<&'a mut HashMap<String, u32>> }
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> R<Tok> { let r = self.t.get(self.i).cloned().ok_or("eof".to_string()); self.i += 1; r }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn eat(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {} got {:?} at {} in {:?}", c, self.peek(), self.i, self.t.get(self.i.saturating_sub(4)..(self.i + 4).min(self.t.len())))) } }
    fn isid(&self, s: &str) -> bool { matches!(self.peek(), Some(Tok::Id(x)) if x == s) }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.i += 1; true } else { false } }
    fn skip_paren(&mut self) -> R<()> { // at '('
        let mut d = 0;
        loop { match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return Ok(()); } } _ => {} } }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float, "double" => Ty::Double, "half" | "bfloat" => Ty::Other(16),
                "fp128" => Ty::Other(128), "metadata" => Ty::Meta, "label" => Ty::Label,
                _ if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) && s.len() > 1 => Ty::Int(s[1..].parse().unwrap()),
                _ => { self.i -= 1; return Err(format!("type? {}", s)); }
            },
            Tok::P('[') => { let n = self.num()? as u64; if !self.eatid("x") { return Err("x".into()); } let t = self.ty()?; self.exp(']')?; Ty::Arr(n, Box::new(t)) }
            Tok::P('{') => { let mut f = vec![]; while !self.eat('}') { f.push(self.ty()?); self.eat(','); } Ty::Struct(false, f) }
            Tok::P('<') => {
                if self.eat('{') { let mut f = vec![]; while !self.eat('}') { f.push(self.ty()?); self.eat(','); } self.exp('>')?; Ty::Struct(true, f) }
                else { let n = self.num()? as u64; if !self.eatid("x") { return Err("x".into()); } let t = self.ty()?; self.exp('>')?; Ty::Vec(n, Box::new(t)) }
            }
            t => { self.i -= 1; return Err(format!("type? {:?}", t)); }
        };
        Ok(t)
    }
    fn num(&mut self) -> R<i128> { match self.next()? { Tok::Num(s) => s.parse().map_err(|_| format!("num {}", s)), t => Err(format!("num? {:?}", t)) } }
    fn reg(&mut self, n: &str) -> R<u32> {
        match &mut self.regs { Some(r) => { let l = r.len() as u32; Ok(*r.entry(n.to_string()).or_insert(l)) } None => Err("reg in const".into()) }
    }
    fn mask(w: u32, v: i128) -> u128 { let u = v as u128; if w >= 128 { u } else { u & ((1u128 << w) - 1) } }
    pub fn val(&mut self, ty: &Ty) -> R<Opd> {
        match self.next()? {
            Tok::Loc(n) => Ok(Opd::Reg(self.reg(&n)?)),
            Tok::Glob(n) => Ok(Opd::C(self.m.addr_of(&n)? as u128)),
            Tok::Num(s) => match ty {
                Ty::Int(w) => {
                    if let Ok(v) = s.parse::<i128>() { Ok(Opd::C(Self::mask(*w, v))) }
                    else if let Ok(v) = s.parse::<u128>() { Ok(Opd::C(v)) } else { Err(format!("int {}", s)) }
                }
                Ty::Double => { if let Some(h) = s.strip_prefix("0x") { Ok(Opd::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128)) } else { Ok(Opd::C(s.parse::<f64>().map_err(|e| e.to_string())?.to_bits() as u128)) } }
                Ty::Float => { if let Some(h) = s.strip_prefix("0x") { let d = f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?); Ok(Opd::C((d as f32).to_bits() as u128)) } else { Ok(Opd::C(s.parse::<f32>().map_err(|e| e.to_string())?.to_bits() as u128)) } }
                _ => Err(format!("num {} for {:?}", s, ty)),
            },
            Tok::CStr(v) => Ok(Opd::Agg(v.into_iter().map(|b| Opd::C(b as u128)).collect())),
            Tok::P('{') => { let mut f = vec![]; while !self.eat('}') { let t = self.ty()?; f.push(self.val(&t)?); self.eat(','); } Ok(Opd::Agg(f)) }
            Tok::P('[') => { let mut f = vec![]; while !self.eat(']') { let t = self.ty()?; f.push(self.val(&t)?); self.eat(','); } Ok(Opd::Agg(f)) }
            Tok::P('<') => {
                let br = self.eat('{');
                let mut f = vec![];
                loop {
                    if br && self.eat('}') { self.exp('>')?; break; }
                    if !br && self.eat('>') { break; }
                    let t = self.ty()?; f.push(self.val(&t)?); self.eat(',');
                }
                Ok(Opd::Agg(f))
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Opd::C(1)), "false" => Ok(Opd::C(0)), "null" => Ok(Opd::C(0)), "none" => Ok(Opd::C(0)),
                "undef" | "poison" => Ok(zero_of(ty)),
                "zeroinitializer" => Ok(zero_of(ty)),
                "splat" => { self.exp('(')?; let t = self.ty()?; let v = self.val(&t)?; self.exp(')')?; if let Ty::Vec(n, _) = ty { Ok(Opd::Agg(vec![v; *n as usize])) } else { Err("splat".into()) } }
                "getelementptr" => {
                    while let Some(Tok::Id(_)) = self.peek() { self.i += 1; if self.isp('(') && !self.isp('(') {} if matches!(self.t[self.i - 1], Tok::Id(ref x) if x == "inrange") { self.skip_paren()?; } }
                    self.exp('(')?;
                    let t = self.ty()?; self.exp(',')?; let pt = self.ty()?; let b = self.val(&pt)?;
                    let mut idx = vec![];
                    while self.eat(',') { let it = self.ty()?; idx.push((it.clone(), self.val(&it)?)); }
                    self.exp(')')?;
                    let g = gep_idx(&t, idx)?;
                    let mut a = if let Opd::C(x) = b { x as u64 } else { return Err("gep base".into()) };
                    for x in g { match x { GepIdx::Const(c) => a = a.wrapping_add(c as u64), _ => return Err("gep const idx".into()) } }
                    Ok(Opd::C(a as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                    self.exp('(')?; let t = self.ty()?; let v = self.val(&t)?; if !self.eatid("to") { return Err("to".into()); } let t2 = self.ty()?; self.exp(')')?;
                    if let (Opd::C(c), true) = (&v, t2.is_scalar()) { let w = t2.bits(); return Ok(Opd::C(if w >= 128 { *c } else { c & ((1u128 << w) - 1) })); }
                    Ok(v)
                }
                "sub" | "add" | "xor" | "trunc" => {
                    while let Some(Tok::Id(_)) = self.peek() { self.i += 1; }
                    self.exp('(')?; let t = self.ty()?; let a = self.val(&t)?;
                    if s == "trunc" { self.eatid("to"); let t2 = self.ty()?; self.exp(')')?; if let Opd::C(c) = a { return Ok(Opd::C(c & ((1u128 << t2.bits()) - 1))); } return Err("trunc".into()); }
                    self.exp(',')?; let t2 = self.ty()?; let b = self.val(&t2)?; self.exp(')')?;
                    let w = t.bits(); let mk = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    if let (Opd::C(a), Opd::C(b)) = (a, b) { Ok(Opd::C(mk & match s.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b })) } else { Err("constexpr".into()) }
                }
                "-inf" | "+inf" | "inf" | "+nan" | "-nan" | "+qnan" | "-qnan" | "qnan" | "nan" if matches!(ty, Ty::Float | Ty::Double) => {
                    let (top, w, q) = if matches!(ty, Ty::Float) { (0xffu128, 23, 31) } else { (0x7ffu128, 52, 63) };
                    Ok(Opd::C(top << w | if s.contains("nan") { 1 << (w - 1) } else { 0 } | if s.starts_with('-') { 1 << q } else { 0 }))
                }
                _ => Err(format!("value? {}", s)),
            },
            Tok::Meta(_) => { Ok(Opd::C(0)) }
            t => Err(format!("value? {:?}", t)),
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    if matches!(s.as_str(), "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "sub" | "add" | "xor" | "trunc") { return Ok(()); }
                    self.i += 1;
                    if s == "align" { if let Some(Tok::Num(_)) = self.peek() { self.i += 1; } }
                    if self.isp('(') { self.skip_paren()?; }
                }
                Some(Tok::Str(_)) => { self.i += 1; }
                _ => return Ok(()),
            }
        }
    }
    fn tv(&mut self) -> R<(Ty, Opd)> { let t = self.ty()?; self.skip_attrs()?; if t == Ty::Meta { // metadata operand: skip until , or )
            let mut d = 0; while let Some(t) = self.peek() { match t { Tok::P('(') => d += 1, Tok::P(')') if d == 0 => break, Tok::P(')') => d -= 1, Tok::P(',') if d == 0 => break, _ => {} } self.i += 1; } return Ok((Ty::Meta, Opd::C(0))); }
        let v = self.val(&t)?; Ok((t, v)) }
    fn label(&mut self) -> R<String> { if !self.eatid("label") { return Err("label".into()); } match self.next()? { Tok::Loc(n) => Ok(n), t => Err(format!("label {:?}", t)) } }

    fn ins(&mut self) -> R<(Option<u32>, Ins)> {
        let mut dst = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (self.t.get(self.i), self.t.get(self.i + 1)) { let n = n.clone(); dst = Some(self.reg(&n)?); self.i += 2; }
        let mut op = match self.next()? { Tok::Id(s) => s, t => return Err(format!("op {:?}", t)) };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") { op = match self.next()? { Tok::Id(s) => s, t => return Err(format!("op {:?}", t)) }; }
        const BINS: &[&str] = &["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"];
        if let Some(o) = BINS.iter().find(|x| **x == op) {
            while let Some(Tok::Id(s)) = self.peek() { if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint") { self.i += 1; } else { break; } }
            let t = self.ty()?; let a = self.val(&t)?; self.exp(',')?; let b = self.val(&t)?;
            let (w, vec) = match &t { Ty::Int(w) => (*w, 0), Ty::Vec(n, e) => (e.bits(), *n), _ => return Err("bin ty".into()) };
            return Ok((dst, Ins::Bin { op: o, w, a, b, vec }));
        }
        let ins = match op.as_str() {
            "icmp" => {
                self.eatid("samesign");
                let pred = match self.next()? { Tok::Id(s) => s, _ => return Err("pred".into()) };
                let (pred, _) = if pred == "samesign" { (match self.next()? { Tok::Id(s) => s, _ => return Err("pred".into()) }, 0) } else { (pred, 0) };
                let t = self.ty()?; let a = self.val(&t)?; self.exp(',')?; let b = self.val(&t)?;
                let (w, vec) = match &t { Ty::Int(w) => (*w, 0), Ty::Ptr => (64, 0), Ty::Vec(n, e) => (e.bits(), *n), _ => return Err("cmp ty".into()) };
                Ins::Cmp { pred, w, a, b, vec }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while let Some(Tok::Id(s)) = self.peek() { if matches!(s.as_str(), "nuw" | "nsw" | "nneg") { self.i += 1; } else { break; } }
                let from = self.ty()?; let a = self.val(&from)?; if !self.eatid("to") { return Err("to".into()); } let to = self.ty()?;
                Ins::Cast { op, from, to, a }
            }
            "select" => { let ct = self.ty()?; let c = self.val(&ct)?; self.exp(',')?; let t = self.ty()?; let a = self.val(&t)?; self.exp(',')?; let t2 = self.ty()?; let b = self.val(&t2)?; Ins::Select { c, ty: t, a, b, cvec: matches!(ct, Ty::Vec(..)) } }
            "load" => { self.eatid("atomic"); self.eatid("volatile"); let ty = self.ty()?; self.exp(',')?; let pt = self.ty()?; let p = self.val(&pt)?; Ins::Load { ty, p } }
            "store" => { self.eatid("atomic"); self.eatid("volatile"); let (ty, v) = self.tv()?; self.exp(',')?; let (_, p) = self.tv()?; Ins::Store { ty, v, p } }
            "getelementptr" => {
                while let Some(Tok::Id(s)) = self.peek() { if matches!(s.as_str(), "inbounds" | "nuw" | "nusw") { self.i += 1; } else { break; } }
                let t = self.ty()?; self.exp(',')?; let pt = self.ty()?; let base = self.val(&pt)?;
                let mut idx = vec![];
                while self.eat(',') { if let Some(Tok::Meta(_)) = self.peek() { break; } let it = self.ty()?; idx.push((it.clone(), self.val(&it)?)); }
                Ins::Gep { base, idx: gep_idx(&t, idx)? }
            }
            "alloca" => { let t = self.ty()?; let mut size = t.size(); if self.eat(',') { if !self.isid("align") { if let Ok(it) = self.ty() { if let Opd::C(c) = self.val(&it)? { size *= c as u64; } else { return Err("dyn alloca".into()); } } } } Ins::Alloca { size } }
            "phi" => {
                let ty = self.ty()?; let mut inc = vec![];
                loop { self.exp('[')?; let v = self.val(&ty)?; self.exp(',')?; let l = match self.next()? { Tok::Loc(n) => n, t => return Err(format!("phi {:?}", t)) }; self.exp(']')?; inc.push((v, l)); if !self.eat(',') { break; } if let Some(Tok::Meta(_)) = self.peek() { break; } }
                Ins::Phi { ty, inc }
            }
            "call" | "invoke" => {
                // skip fast-math flags, calling convention, return attributes until a type parses
                let ret;
                loop {
                    let save = self.i;
                    match self.ty() { Ok(t) => { ret = t; break; } Err(_) => {
                        self.i = save;
                        match self.next()? { Tok::Id(s) => { if s == "align" { if let Some(Tok::Num(_)) = self.peek() { self.i += 1; } } if self.isp('(') { self.skip_paren()?; } if s == "cc" { self.i += 1; } } t => return Err(format!("call {:?}", t)) }
                    } }
                }
                if self.isp('(') { self.skip_paren()?; } // function type for varargs
                let callee = match self.next()? { Tok::Glob(n) => Callee::Direct(n), Tok::Loc(n) => Callee::Indirect(Opd::Reg(self.reg(&n)?)), Tok::Id(s) if s == "asm" => Callee::Direct("asm".into()), t => return Err(format!("callee {:?}", t)) };
                if let Callee::Direct(n) = &callee { if n == "asm" { return Ok((dst, Ins::Unsupported("asm".into()))); } }
                self.exp('(')?; let mut args = vec![];
                while !self.eat(')') { let a = self.tv()?; args.push(a); self.eat(','); }
                let mut normal = None;
                if op == "invoke" { while !self.isid("to") { self.i += 1; if self.i >= self.t.len() { return Err("invoke".into()); } } self.i += 1; normal = Some(self.label()?); }
                Ins::Call { callee, ret, args, normal }
            }
            "extractvalue" => { let t = self.ty()?; let a = self.val(&t)?; let mut idx = vec![]; while self.eat(',') { if let Some(Tok::Num(_)) = self.peek() { idx.push(self.num()? as usize); } else { break; } } Ins::Extract { a, idx } }
            "insertvalue" => { let ty = self.ty()?; let a = self.val(&ty)?; self.exp(',')?; let (_, v) = self.tv()?; let mut idx = vec![]; while self.eat(',') { if let Some(Tok::Num(_)) = self.peek() { idx.push(self.num()? as usize); } else { break; } } Ins::Insert { a, ty, v, idx } }
            "freeze" => { let t = self.ty()?; let a = self.val(&t)?; Ins::Freeze { a } }
            "br" => { if self.isid("label") { Ins::Br(self.label()?) } else { let (_, c) = self.tv()?; self.exp(',')?; let t = self.label()?; self.exp(',')?; let f = self.label()?; Ins::CondBr { c, t, f } } }
            "switch" => {
                let (t, v) = self.tv()?; self.exp(',')?; let def = self.label()?; self.exp('[')?; let mut cases = vec![];
                while !self.eat(']') { let ct = self.ty()?; let c = match self.val(&ct)? { Opd::C(c) => c, _ => return Err("case".into()) }; self.exp(',')?; cases.push((c, self.label()?)); }
                Ins::Switch { w: t.bits(), v, def, cases }
            }
            "ret" => { if self.eatid("void") { Ins::Ret(None) } else { let x = self.tv()?; Ins::Ret(Some(x)) } }
            "atomicrmw" => { self.eatid("volatile"); let o = match self.next()? { Tok::Id(s) => s, _ => return Err("rmw".into()) }; let (_, p) = self.tv()?; self.exp(',')?; let (t, v) = self.tv()?; Ins::AtomicRmw { op: o, p, w: t.bits(), v } }
            "cmpxchg" => { self.eatid("weak"); self.eatid("volatile"); let (_, p) = self.tv()?; self.exp(',')?; let (t, cmp) = self.tv()?; self.exp(',')?; let (_, new) = self.tv()?; Ins::CmpXchg { p, w: t.bits(), cmp, new } }
            "fence" => Ins::Fence,
            "unreachable" => Ins::Unreachable,
            "extractelement" => { let t = self.ty()?; let a = self.val(&t)?; self.exp(',')?; let (_, i) = self.tv()?; Ins::ExtElem { a, i } }
            "insertelement" => { let ty = self.ty()?; let a = self.val(&ty)?; self.exp(',')?; let (_, v) = self.tv()?; self.exp(',')?; let (_, i) = self.tv()?; Ins::InsElem { a, ty, v, i } }
            "shufflevector" => { let t = self.ty()?; let a = self.val(&t)?; self.exp(',')?; let t2 = self.ty()?; let b = self.val(&t2)?; self.exp(',')?; let t3 = self.ty()?; let mask = self.val(&t3)?; let n = if let Ty::Vec(n, _) = t { n } else { 0 }; let mn = if let Ty::Vec(n, _) = t3 { n } else { 0 }; Ins::Shuffle { a, b, n, mask, mn } }
            _ => Ins::Unsupported(op),
        };
        Ok((dst, ins))
    }
}

pub fn zero_of(t: &Ty) -> Opd {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => Opd::Agg(vec![zero_of(e); *n as usize]),
        Ty::Struct(_, f) => Opd::Agg(f.iter().map(zero_of).collect()),
        _ => Opd::C(0),
    }
}

fn gep_idx(t: &Ty, idx: Vec<(Ty, Opd)>) -> R<Vec<GepIdx>> {
    let mut out = vec![]; let mut cur = t.clone(); let mut konst = 0i64;
    for (n, (it, v)) in idx.into_iter().enumerate() {
        let w = it.bits();
        let scale;
        if n == 0 { scale = cur.size(); }
        else {
            match cur.clone() {
                Ty::Arr(_, e) | Ty::Vec(_, e) => { scale = e.size(); cur = *e; }
                Ty::Struct(_, f) => { if let Opd::C(c) = v { let (o, _) = cur.layout(); konst += o[c as usize] as i64; cur = f[c as usize].clone(); continue; } return Err("struct idx".into()); }
                _ => return Err("gep ty".into()),
            }
        }
        match v { Opd::C(c) => { let s = if w < 128 { ((c << (128 - w)) as i128 >> (128 - w)) as i64 } else { c as i64 }; konst = konst.wrapping_add(s.wrapping_mul(scale as i64)); } v => out.push(GepIdx::Scaled(v, w, scale)) }
    }
    out.push(GepIdx::Const(konst));
    Ok(out)
}

impl Module {
    pub fn addr_of(&self, n: &str) -> R<u64> {
        if let Some(g) = self.globals.get(n) { return Ok(g.addr); }
        if let Some(a) = self.faddr.get(n) { return Ok(*a); }
        Err(format!("unknown global @{}", n))
    }
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module { fdefs: HashMap::new(), fnames: HashMap::new(), noreturn: HashMap::new(), lines: vec![], globals: HashMap::new(), gaddr: vec![], faddr: HashMap::new(), fbyaddr: HashMap::new(), cache: RefCell::new(HashMap::new()) };
        let mut nr_attrs: HashMap<String, bool> = HashMap::new();
        for l in &lines { if let Some(r) = l.strip_prefix("attributes #") { let (id, body) = r.split_once(' ').unwrap(); nr_attrs.insert(id.to_string(), body.split(|c: char| !c.is_alphanumeric()).any(|w| w == "noreturn")); } }
        let mut i = 0; let mut fa = 0x1000u64; let mut ga = 0x1000_0000u64;
        let mut readable = String::new();
        let mut aliases = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("; ") { readable = l[2..].to_string(); i += 1; continue; }
            if l.starts_with("define") || l.starts_with("declare") {
                let at = l.find('@').unwrap(); let rest = &l[at + 1..];
                let name = if rest.starts_with('"') { rest[1..].split('"').next().unwrap().to_string() } else { rest.split('(').next().unwrap().to_string() };
                let attr = l.rfind(" #").map(|p| l[p + 2..].split(|c: char| !c.is_ascii_digit()).next().unwrap().to_string()).unwrap_or_default();
                let nr = *nr_attrs.get(&attr).unwrap_or(&false);
                m.noreturn.insert(name.clone(), nr);
                m.faddr.insert(name.clone(), fa); m.fbyaddr.insert(fa, name.clone()); fa += 16;
                if l.starts_with("define") {
                    let st = i; while lines[i] != "}" { i += 1; }
                    // the readable name comment directly precedes the define (possibly with a "; Function Attrs" line)
                    let mut k = st; while k > 0 && lines[k - 1].starts_with("; ") { k -= 1; }
                    let rn = if k < st { lines[k][2..].to_string() } else { name.clone() };
                    m.fnames.insert(name.clone(), rn);
                    m.fdefs.insert(name, (st, i));
                }
            } else if l.starts_with('@') {
                let rest = &l[1..];
                let (name, after) = if rest.starts_with('"') { let e = rest[1..].find('"').unwrap(); (rest[1..1 + e].to_string(), &rest[e + 2..]) } else { let e = rest.find(' ').unwrap(); (rest[..e].to_string(), &rest[e..]) };
                let after = after.trim_start().strip_prefix("= ").unwrap_or(after);
                if after.contains(" alias ") || after.starts_with("alias ") { aliases.push((name, after.to_string())); i += 1; continue; }
                // find " constant " or " global "
                let (pos, is_const) = match (after.find("constant "), after.find("global ")) { (Some(a), Some(b)) if b < a => (b + 7, false), (Some(a), _) => (a + 9, true), (None, Some(b)) => (b + 7, false), _ => { i += 1; continue; } };
                let external = after.contains("external ") || after.starts_with("extern_weak");
                let body = after[pos..].to_string();
                let dummy = Module { fdefs: HashMap::new(), fnames: HashMap::new(), noreturn: HashMap::new(), lines: vec![], globals: HashMap::new(), gaddr: vec![], faddr: HashMap::new(), fbyaddr: HashMap::new(), cache: RefCell::new(HashMap::new()) };
                // parse only the type
                let toks = lex(&body.chars().take(3000).collect::<String>());
                let mut p = P { t: toks, i: 0, m: &dummy, regs: None };
                let ty = match p.ty() { Ok(t) => t, Err(_) => Ty::Arr(8, Box::new(Ty::Int(8))) };
                let size = ty.size();
                ga = (ga + 31) / 16 * 16;
                m.gaddr.push((ga, size, name.clone()));
                m.globals.insert(name, Global { addr: ga, size, init: if external { None } else { Some((ty, body)) }, is_const });
                ga += size + 16;
            }
            i += 1;
        }
        let _ = readable;
        for (n, a) in aliases { if let Some(p) = a.rfind('@') { let t: String = a[p + 1..].split(|c: char| c == ',' || c == ' ' || c == ')').next().unwrap().trim_matches('"').to_string(); if let Some(x) = m.faddr.get(&t).cloned() { m.faddr.insert(n.clone(), x); if let Some(d) = m.fdefs.get(&t).cloned() { m.fdefs.insert(n.clone(), d); let rn = m.fnames[&t].clone(); m.fnames.insert(n, rn); } } } }
        m.lines = lines;
        Ok(m)
    }
    pub fn global_bytes(&self, name: &str) -> R<Vec<u8>> {
        let g = &self.globals[name];
        let mut out = vec![0u8; g.size as usize];
        if let Some((ty, body)) = &g.init {
            let mut p = P { t: lex(body), i: 0, m: self, regs: None };
            let t = p.ty()?; let v = p.val(&t)?;
            fill(&mut out, 0, ty, &v)?;
        }
        Ok(out)
    }
    pub fn func(&self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(name) { return Ok(f.clone()); }
        let (s, e) = *self.fdefs.get(name).ok_or(format!("no definition of {}", name))?;
        let f = Rc::new(self.parse_func(name, s, e)?);
        self.cache.borrow_mut().insert(name.to_string(), f.clone());
        Ok(f)
    }
    fn parse_func(&self, name: &str, s: usize, e: usize) -> R<Func> {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![]; let mut numeric = 0usize;
        {
            let head = &self.lines[s];
            let at = head.find('@').unwrap();
            let toks = lex(&head[at..]);
            let mut p = P { t: toks, i: 1, m: self, regs: Some(&mut regs) };
            p.exp('(')?;
            let mut n = 0;
            while !p.eat(')') {
                if let Some(Tok::Dots) = p.peek() { p.i += 1; continue; }
                let t = p.ty()?; p.skip_attrs()?;
                let nm = match p.peek() { Some(Tok::Loc(x)) => { let x = x.clone(); p.i += 1; x } _ => { let x = n.to_string(); x } };
                if nm.bytes().all(|c| c.is_ascii_digit()) { numeric += 1; } let r = p.reg(&nm)?; params.push((t, r)); n += 1; p.eat(',');
            }
        }
        let mut blocks: Vec<Block> = vec![]; let mut lines_out: Vec<String> = vec![];
        let mut i = s + 1;
        while i < e {
            let l = &self.lines[i];
            if l.is_empty() || l.starts_with(';') { i += 1; continue; }
            if !l.starts_with(' ') {
                let nm = l.split(':').next().unwrap().trim_matches('"').to_string();
                blocks.push(Block { name: nm, insts: vec![] }); i += 1; continue;
            }
            if blocks.is_empty() { blocks.push(Block { name: numeric.to_string(), insts: vec![] }); }
            let mut text = l.clone();
            i += 1;
            if l.trim_start().starts_with("switch ") { while !text.trim_end().ends_with(']') && !text.contains("], ") && i < e { text.push(' '); text += &self.lines[i]; i += 1; } }
            else { while i < e && self.lines[i].starts_with("    ") { text.push(' '); text += &self.lines[i]; i += 1; } }
            if text.trim_start().starts_with("#dbg") { continue; }
            let toks = lex(&text);
            let mut p = P { t: toks, i: 0, m: self, regs: Some(&mut regs) };
            let (dst, ins) = match p.ins() { Ok(x) => x, Err(er) => (None, Ins::Unsupported(format!("{} :: {}", er, text))) };
            lines_out.push(text);
            blocks.last_mut().unwrap().insts.push(Inst { dst, ins, text: lines_out.len() as u32 - 1 });
        }
        let bidx = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
        Ok(Func { name: name.to_string(), nregs: regs.len(), params, blocks, bidx, lines: lines_out })
    }
}

fn fill(out: &mut [u8], off: u64, ty: &Ty, v: &Opd) -> R<()> {
    match (ty, v) {
        (Ty::Arr(_, e), Opd::Agg(f)) | (Ty::Vec(_, e), Opd::Agg(f)) => { let s = e.size(); for (i, x) in f.iter().enumerate() { fill(out, off + i as u64 * s, e, x)?; } Ok(()) }
        (Ty::Struct(_, ts), Opd::Agg(f)) => { let (o, _) = ty.layout(); for (i, x) in f.iter().enumerate() { fill(out, off + o[i], &ts[i], x)?; } Ok(()) }
        (_, Opd::C(c)) => { let n = ty.size() as usize; let b = c.to_le_bytes(); for k in 0..n.min(16) { out[off as usize + k] = b[k]; } Ok(()) }
        _ => Err("fill".into()),
    }
}
