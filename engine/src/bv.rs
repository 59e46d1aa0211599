//! Plain bit-vector emission (QF_BV). Integer terms are embedded as wide signed bit-vectors when bounded.
use crate::big::Big;
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write;

pub struct BvEmit<'a> { cx: &'a Ctx, pub out: String, names: HashMap<E, String>, ir: HashMap<E, (Option<Big>, Option<Big>)>, pub vars: Vec<(E, String)> }
type R<T> = Result<T, String>;

impl<'a> BvEmit<'a> {
    pub fn new(cx: &'a Ctx) -> BvEmit<'a> { BvEmit { cx, out: String::new(), names: HashMap::new(), ir: HashMap::new(), vars: vec![] } }
    fn iw(&mut self, e: E) -> R<u32> { // signed width of an integer term
        match self.cx.irange(e, &mut self.ir) { (Some(l), Some(h)) => Ok(l.bits().max(h.bits()) as u32 + 2), _ => Err("unbounded integer".into()) }
    }
    fn resize(s: &str, from: u32, to: u32) -> String { if from == to { s.into() } else if from < to { format!("((_ sign_extend {}) {})", to - from, s) } else { format!("((_ extract {} 0) {})", to - 1, s) } }
    fn sized(&mut self, e: E, w: u32) -> R<String> { let s = self.term(e)?; let f = self.iw(e)?; Ok(Self::resize(&s, f, w)) }
    pub fn boolean(&mut self, e: E) -> R<String> {
        if let Some(c) = self.cx.cv(e) { return Ok(if c != 0 { "true".into() } else { "false".into() }); }
        let n = self.cx.nd(e).clone();
        match n.op {
            Op::Not | Op::Eq | Op::Ult | Op::Slt | Op::IEq | Op::ILt => {}
            Op::And | Op::Or | Op::Xor | Op::Ite => {}
            _ => { let s = self.term(e)?; return Ok(format!("(= {} #b1)", s)); }
        }
        let key = e | 0x8000_0000;
        if let Some(s) = self.names.get(&key) { return Ok(s.clone()); }
        let s = match n.op {
            Op::Not => format!("(not {})", self.boolean(n.a)?),
            Op::And => format!("(and {} {})", self.boolean(n.a)?, self.boolean(n.b)?),
            Op::Or => format!("(or {} {})", self.boolean(n.a)?, self.boolean(n.b)?),
            Op::Xor => format!("(xor {} {})", self.boolean(n.a)?, self.boolean(n.b)?),
            Op::Ite => format!("(ite {} {} {})", self.boolean(n.a)?, self.boolean(n.b)?, self.boolean(n.c)?),
            Op::Eq => if self.cx.w(n.a) == 1 { format!("(= {} {})", self.boolean(n.a)?, self.boolean(n.b)?) } else { format!("(= {} {})", self.term(n.a)?, self.term(n.b)?) },
            Op::Ult => format!("(bvult {} {})", self.term(n.a)?, self.term(n.b)?),
            Op::Slt => format!("(bvslt {} {})", self.term(n.a)?, self.term(n.b)?),
            Op::IEq | Op::ILt => { let w = self.iw(n.a)?.max(self.iw(n.b)?); format!("({} {} {})", if n.op == Op::IEq { "=" } else { "bvslt" }, self.sized(n.a, w)?, self.sized(n.b, w)?) }
            _ => unreachable!(),
        };
        let nm = format!("b{}", e);
        let _ = writeln!(self.out, "(define-fun {} () Bool {})", nm, s);
        self.names.insert(key, nm.clone());
        Ok(nm)
    }
    fn term(&mut self, e: E) -> R<String> {
        if let Some(s) = self.names.get(&e) { return Ok(s.clone()); }
        let n = self.cx.nd(e).clone(); let w = n.w;
        let mut sort = w;
        let bin = |o: &str, s: &mut Self| -> R<String> { Ok(format!("({} {} {})", o, s.term(n.a)?, s.term(n.b)?)) };
        let s = match &n.op {
            Op::C(x) => format!("(_ bv{} {})", x, w),
            Op::V(_) => { let nm = format!("v{}", e); let _ = writeln!(self.out, "(declare-fun {} () (_ BitVec {}))", nm, w); self.vars.push((e, nm.clone())); self.names.insert(e, nm.clone()); return Ok(nm); }
            Op::UF(_) if w > 0 => { let nm = format!("v{}", e); let _ = writeln!(self.out, "(declare-fun {} () (_ BitVec {}))", nm, w); self.vars.push((e, nm.clone())); self.names.insert(e, nm.clone()); return Ok(nm); }
            Op::Add => bin("bvadd", self)?, Op::Sub => bin("bvsub", self)?, Op::Mul => bin("bvmul", self)?, Op::UDiv | Op::URem => { let t = bin(if n.op == Op::UDiv { "bvudiv" } else { "bvurem" }, self)?; if self.cx.nd(n.b).lo > 0 { t } else { let d = self.term(n.b)?; format!("(ite (= {} (_ bv0 {})) (_ bv0 {}) {})", d, w, w, t) } }
            Op::And if w > 1 => bin("bvand", self)?, Op::Or if w > 1 => bin("bvor", self)?, Op::Xor if w > 1 => bin("bvxor", self)?,
            Op::Shl => bin("bvshl", self)?, Op::LShr => bin("bvlshr", self)?, Op::AShr => bin("bvashr", self)?,
            Op::ZExt => format!("((_ zero_extend {}) {})", w - self.cx.w(n.a), self.term(n.a)?),
            Op::SExt => format!("((_ sign_extend {}) {})", w - self.cx.w(n.a), self.term(n.a)?),
            Op::Extract(lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, self.term(n.a)?),
            Op::Concat => format!("(concat {} {})", self.term(n.a)?, self.term(n.b)?),
            Op::Ite if w > 1 => format!("(ite {} {} {})", self.boolean(n.a)?, self.term(n.b)?, self.term(n.c)?),
            Op::ToBV => { let s = self.term(n.a)?; let f = self.iw(n.a)?; Self::resize(&s, f, w) }
            Op::IC(x) => { sort = self.iw(e)?; let m = x.divmod_floor(&Big::pow2(sort as usize)).1; format!("(_ bv{} {})", m, sort) }
            Op::IOfBV => { sort = self.iw(e)?; let s = self.term(n.a)?; let f = self.cx.w(n.a); if f < sort { format!("((_ zero_extend {}) {})", sort - f, s) } else { format!("((_ extract {} 0) {})", sort - 1, s) } }
            Op::IAdd | Op::ISub | Op::IMul => {
                sort = self.iw(e)?; let (wa, wb) = (self.iw(n.a)?, self.iw(n.b)?);
                let cw = sort.max(wa).max(wb);
                let a = self.sized(n.a, cw)?; let b = self.sized(n.b, cw)?;
                let o = match n.op { Op::IAdd => "bvadd", Op::ISub => "bvsub", _ => "bvmul" };
                Self::resize(&format!("({} {} {})", o, a, b), cw, sort)
            }
            Op::IName => { sort = self.iw(n.a)?; self.term(n.a)? }
            Op::IIte => { sort = self.iw(e)?; let c = self.boolean(n.a)?; let cw = sort.max(self.iw(n.b)?).max(self.iw(n.c)?); let a = self.sized(n.b, cw)?; let b = self.sized(n.c, cw)?; Self::resize(&format!("(ite {} {} {})", c, a, b), cw, sort) }
            Op::IDiv => { // floor, nonnegative dividend only
                let (l, _) = self.cx.irange(n.a, &mut self.ir); if l.map_or(true, |x| x.neg) { return Err("idiv".into()); }
                sort = self.iw(e)?; let cw = self.iw(n.a)?.max(self.iw(n.b)?).max(sort); let a = self.sized(n.a, cw)?; let b = self.sized(n.b, cw)?; Self::resize(&format!("(bvudiv {} {})", a, b), cw, sort) }
            Op::Not | Op::Eq | Op::Ult | Op::Slt | Op::IEq | Op::ILt | Op::And | Op::Or | Op::Xor | Op::Ite => format!("(ite {} #b1 #b0)", self.boolean(e)?),
            Op::IV(_) => { let v = self.cx.vars[match n.op { Op::IV(i) => i, _ => 0 } as usize].clone(); sort = self.iw(e)?; let nm = format!("v{}", e); let _ = writeln!(self.out, "(declare-fun {} () (_ BitVec {}))", nm, sort); let _ = v; self.vars.push((e, nm.clone())); nm }
            Op::UF(_) => return Err("uf".into()),
        };
        let nm = format!("t{}", e);
        let _ = writeln!(self.out, "(define-fun {} () (_ BitVec {}) {})", nm, sort, s);
        self.names.insert(e, nm.clone());
        Ok(nm)
    }
    pub fn assert_bool(&mut self, e: E) -> R<()> { let s = self.boolean(e)?; let _ = writeln!(self.out, "(assert {})", s); Ok(()) }
}
