//! Path-forking symbolic execution of LLVM IR.
use crate::big::Big;
use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), Agg(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub data: Vec<u8>, pub sym: BTreeMap<u32, (E, u8)>, pub ro: bool }

#[derive(Clone)]
pub struct Frame { func: Rc<Func>, blk: usize, ip: usize, prev: usize, regs: Vec<Val>, allocas: Vec<u64> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Option<Rc<Model>>,
    known: HashMap<E, u128>,
    pub inputs: Vec<E>,
    expect_panic: bool,
    may_panic: bool,
    next: u64,
    steps: u64,
    asserts: u64,
    depth: u32,
    zh: Vec<E>, // integer handles
    limbmap: HashMap<Vec<E>, E>, // limb vectors that are known to spell an integer term
    pub notes: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Cex { pub kind: String, pub id: u64, pub msg: String, pub inputs: Vec<Big> }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub panics_ok: u64, pub steps: u64, pub asserts: u64, pub asserts_trivial: u64, pub forks: u64,
    pub cex: Vec<Cex>, pub inconclusive: Vec<String>, pub funcs: BTreeSet<String>, pub assert_ids: BTreeSet<u64>,
    pub path_inputs: Vec<Vec<Big>>, pub replaced: BTreeSet<String>, pub direct: BTreeSet<String>, pub pruned: u64, pub cover: BTreeMap<u64, u64>,
}

pub struct Opts { pub max_steps: u64, pub max_paths: u64, pub time: f64, pub max_cex: usize, pub fork_select: bool, pub keep_paths: usize, pub trace: bool, pub concrete: Option<Vec<Big>>, pub replace: Vec<(String, String, bool)> }

pub struct Exec<'m> { pub m: &'m Module, pub cx: Ctx, pub sv: Solver, pub rep: Report, pub o: Opts, gcache: HashMap<u64, Rc<Obj>>, work: Vec<State>, t0: Instant }

enum Stop { End, Err(String) }
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Err(s.into())) }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, sv: Solver, o: Opts) -> Exec<'m> { Exec { m, cx: Ctx::new(), sv, rep: Report::default(), o, gcache: HashMap::new(), work: vec![], t0: Instant::now() } }

    // ------------------------------------------------------------------ memory
    fn obj_at(&mut self, st: &State, addr: u64) -> Option<Rc<Obj>> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() { if addr < b + o.size.max(1) { return Some(o.clone()); } }
        if addr >= 0x1000_0000 && addr < 0x4000_0000 {
            let i = self.m.gaddr.partition_point(|g| g.0 <= addr);
            if i == 0 { return None; }
            let (b, sz, name) = &self.m.gaddr[i - 1];
            if addr >= b + (*sz).max(1) { return None; }
            if let Some(o) = self.gcache.get(b) { return Some(o.clone()); }
            let data = match self.m.global_bytes(name) { Ok(d) => d, Err(e) => { eprintln!("global {}: {}", name, e); return None; } };
            let o = Rc::new(Obj { base: *b, size: *sz, data, sym: BTreeMap::new(), ro: self.m.globals[name].is_const });
            self.gcache.insert(*b, o.clone());
            return Some(o);
        }
        None
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let a = st.next; st.next += (size + 47) / 16 * 16;
        st.mem.insert(a, Rc::new(Obj { base: a, size, data: vec![0; size as usize], sym: BTreeMap::new(), ro: false }));
        a
    }
    fn byte(&mut self, o: &Obj, off: u32) -> E {
        if let Some((s, (e, n))) = o.sym.range(..=off).next_back() { if off < s + *n as u32 { return self.cx.extract(*e, (off - s) * 8, 8); } }
        self.cx.c(o.data[off as usize] as u128, 8)
    }
    fn load_bits(&mut self, st: &State, addr: u64, bytes: u64) -> X<Val> {
        let o = match self.obj_at(st, addr) { Some(o) => o, None => return err(format!("load from invalid address {:#x}", addr)) };
        let off = addr - o.base;
        if off + bytes > o.size { return err(format!("out-of-bounds load at {:#x}+{} (object {:#x} size {})", addr, bytes, o.base, o.size)); }
        let off = off as u32; let n = bytes as u32;
        if !o.sym.is_empty() {
            if let Some((e, k)) = o.sym.get(&off) { if *k as u32 == n { return Ok(Val::S(*e)); } }
            let lo = off.saturating_sub(15);
            let overlap = o.sym.range(lo..off + n).any(|(s, (_, k))| s + *k as u32 > off);
            if overlap {
                if let Some((s, (e, k))) = o.sym.range(..=off).next_back() { if s + *k as u32 >= off + n { let r = self.cx.extract(*e, (off - s) * 8, n * 8); return Ok(self.vs(r)); } }
                let mut acc: Option<E> = None;
                for i in 0..n { let b = self.byte(&o, off + i); acc = Some(match acc { None => b, Some(a) => self.cx.concat(b, a) }); }
                return Ok(self.vs(acc.unwrap()));
            }
        }
        let mut v = 0u128; for i in 0..n as usize { v |= (o.data[off as usize + i] as u128) << (8 * i); }
        Ok(Val::C(v))
    }
    fn vs(&self, e: E) -> Val { match self.cx.cv(e) { Some(c) => Val::C(c), None => Val::S(e) } }
    fn with_obj<F: FnOnce(&mut Obj)>(&mut self, st: &mut State, addr: u64, bytes: u64, f: F) -> X<()> {
        let o = match self.obj_at(st, addr) { Some(o) => o, None => return err(format!("store to invalid address {:#x}", addr)) };
        let off = addr - o.base;
        if off + bytes > o.size { return err(format!("out-of-bounds store at {:#x}+{}", addr, bytes)); }
        if o.ro { return err("store to constant"); }
        let base = o.base;
        let ent = st.mem.entry(base).or_insert_with(|| o.clone());
        drop(o);
        f(Rc::make_mut(ent));
        Ok(())
    }
    fn clear_sym(cx: &mut Ctx, o: &mut Obj, off: u32, n: u32) {
        if o.sym.is_empty() { return; }
        let lo = off.saturating_sub(15);
        let keys: Vec<u32> = o.sym.range(lo..off + n).filter(|(s, (_, k))| **s + *k as u32 > off).map(|(s, _)| *s).collect();
        for s in keys {
            let (e, k) = o.sym.remove(&s).unwrap();
            let k = k as u32;
            // keep the parts outside [off, off+n)
            let parts = [(s, off.max(s) - s), (((off + n).min(s + k)).max(s), (s + k).saturating_sub(off + n))];
            if s < off { let len = parts[0].1; let x = cx.extract(e, 0, len * 8); Self::put(cx, o, s, x, len); }
            if s + k > off + n { let st = off + n; let len = s + k - st; let x = cx.extract(e, (st - s) * 8, len * 8); Self::put(cx, o, st, x, len); }
        }
    }
    fn put(cx: &mut Ctx, o: &mut Obj, off: u32, e: E, n: u32) {
        if let Some(c) = cx.cv(e) { for i in 0..n { o.data[(off + i) as usize] = (c >> (8 * i)) as u8; } }
        else { o.sym.insert(off, (e, n as u8)); }
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, bytes: u64, v: &Val) -> X<()> {
        let mut cx = std::mem::replace(&mut self.cx, Ctx::new());
        let r = self.with_obj(st, addr, bytes, |o| {
            let off = (addr - o.base) as u32;
            Self::clear_sym(&mut cx, o, off, bytes as u32);
            match v {
                Val::C(c) => { for i in 0..bytes as usize { o.data[off as usize + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 }; } }
                Val::S(e) => { let w = cx.w(*e); let e = if (w as u64) < bytes * 8 { cx.zext(*e, bytes as u32 * 8) } else { *e }; Self::put(&mut cx, o, off, e, bytes as u32); }
                Val::Agg(_) => panic!("store agg"),
            }
        });
        self.cx = cx; r
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let mut v = vec![]; for i in 0..*n { v.push(self.load_ty(st, addr + i * e.size(), e)?); } Ok(Val::Agg(Rc::new(v))) }
            Ty::Struct(_, f) => { let (o, _) = ty.layout(); let mut v = vec![]; for (i, t) in f.iter().enumerate() { v.push(self.load_ty(st, addr + o[i], t)?); } Ok(Val::Agg(Rc::new(v))) }
            _ => { let w = ty.bits(); let bytes = (w as u64 + 7) / 8; let v = self.load_bits(st, addr, bytes)?; Ok(if bytes * 8 != w as u64 { match v { Val::C(c) => Val::C(c & mask(w)), Val::S(e) => { let x = self.cx.extract(e, 0, w); self.vs(x) } v => v } } else { v }) }
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Arr(_, e), Val::Agg(f)) | (Ty::Vec(_, e), Val::Agg(f)) => { for (i, x) in f.iter().enumerate() { self.store_ty(st, addr + i as u64 * e.size(), e, x)?; } Ok(()) }
            (Ty::Struct(_, ts), Val::Agg(f)) => { let (o, _) = ty.layout(); for (i, x) in f.iter().enumerate() { self.store_ty(st, addr + o[i], &ts[i], x)?; } Ok(()) }
            _ => { let w = ty.bits(); self.store_bits(st, addr, (w as u64 + 7) / 8, v) }
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 || dst == src { return Ok(()); }
        let o = match self.obj_at(st, src) { Some(o) => o, None => return err("memcpy from invalid address") };
        let so = src - o.base;
        if so + n > o.size { return err("memcpy out of bounds (source)"); }
        let data = o.data[so as usize..(so + n) as usize].to_vec();
        let mut syms: Vec<(u32, E, u32)> = vec![];
        let lo = (so as u32).saturating_sub(15);
        for (s, (e, k)) in o.sym.range(lo..(so + n) as u32) {
            let (s, k) = (*s as u64, *k as u64);
            if s + k <= so { continue; }
            let a = s.max(so); let b = (s + k).min(so + n);
            let x = if a == s && b == s + k { *e } else { self.cx.extract(*e, ((a - s) * 8) as u32, ((b - a) * 8) as u32) };
            syms.push(((a - so) as u32, x, (b - a) as u32));
        }
        let mut cx = std::mem::replace(&mut self.cx, Ctx::new());
        let r = self.with_obj(st, dst, n, |o| {
            let off = (dst - o.base) as u32;
            Self::clear_sym(&mut cx, o, off, n as u32);
            o.data[off as usize..off as usize + n as usize].copy_from_slice(&data);
            for (s, e, k) in syms { Self::put(&mut cx, o, off + s, e, k); }
        });
        self.cx = cx; r
    }

    // ------------------------------------------------------------------ values
    fn opd(&mut self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                if let Val::S(e) = &v { if let Some(k) = st.known.get(e) { return Val::C(*k); } }
                v
            }
            Opd::C(c) => Val::C(*c),
            Opd::Agg(v) => Val::Agg(Rc::new(v.iter().map(|x| self.opd(st, x)).collect())),
            Opd::Undef => Val::C(0),
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> E { match v { Val::C(c) => self.cx.c(*c, w), Val::S(e) => *e, Val::Agg(_) => panic!("agg as scalar") } }
    fn set(&mut self, st: &mut State, d: Option<u32>, v: Val) { if let Some(d) = d { let v = if let Val::S(e) = v { self.vs(e) } else { v }; st.frames.last_mut().unwrap().regs[d as usize] = v; } }

    fn add_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions
        if let Op::And = self.cx.nd(c).op { let (a, b) = (self.cx.nd(c).a, self.cx.nd(c).b); self.add_pc(st, a); self.add_pc(st, b); return; }
        if self.cx.cv(c).is_some() { return; }
        if let Op::Not = self.cx.nd(c).op {
            let x = self.cx.nd(c).a;
            if let Op::Or = self.cx.nd(x).op { let (a, b) = (self.cx.nd(x).a, self.cx.nd(x).b); let na = self.cx.not(a); let nb = self.cx.not(b); self.add_pc(st, na); self.add_pc(st, nb); return; }
            st.known.insert(x, 0);
        } else { st.known.insert(c, 1); }
        if let Op::Eq = self.cx.nd(c).op { let (a, b) = (self.cx.nd(c).a, self.cx.nd(c).b); if let Some(k) = self.cx.cv(b) { st.known.insert(a, k); } }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    fn model_of(&mut self, st: &mut State) -> Option<Rc<Model>> {
        if let Some(m) = &st.model { return Some(m.clone()); }
        let t = self.cx.tru();
        match self.sv.check(&mut self.cx, &st.pc.clone(), t, None) { Res::Sat(m) => { st.model = Some(m.clone()); Some(m) } _ => None }
    }
    fn simp(&self, st: &State, c: E) -> Option<bool> {
        if let Some(x) = self.cx.cv(c) { return Some(x != 0); }
        if let Some(x) = st.known.get(&c) { return Some(*x != 0); }
        let n = self.cx.nd(c);
        match n.op {
            Op::Not => self.simp(st, n.a).map(|b| !b),
            Op::And => match (self.simp(st, n.a), self.simp(st, n.b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or => match (self.simp(st, n.a), self.simp(st, n.b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            Op::Eq => { if let (Some(k), Some(y)) = (st.known.get(&n.a), self.cx.cv(n.b)) { return Some(*k == y); } None }
            Op::Ult => { let a = st.known.get(&n.a).cloned().or(self.cx.cv(n.a)); let b = st.known.get(&n.b).cloned().or(self.cx.cv(n.b)); if let (Some(x), Some(y)) = (a, b) { return Some(x < y); } None }
            _ => None,
        }
    }
    /// Decide a branch. Returns the side this state continues on; pushes the other one (built by `other`) if feasible.
    fn branch(&mut self, st: &mut State, c: E) -> X<(bool, Option<State>)> {
        if let Some(b) = self.simp(st, c) { return Ok((b, None)); }
        let nc = self.cx.not(c);
        if let Some(m) = st.model.clone() {
            let side = self.cx.eval(c, &m).b() == 1;
            let (mine, oth) = if side { (c, nc) } else { (nc, c) };
            let pc = st.pc.clone();
            match self.sv.check(&mut self.cx, &pc, oth, Some(&m)) {
                Res::Unsat => { if side { st.known.insert(c, 1); } else { st.known.insert(c, 0); } Ok((side, None)) }
                Res::Sat(m2) => { let mut o = st.clone(); self.add_pc(&mut o, oth); o.model = Some(m2); self.add_pc(st, mine); self.rep.forks += 1; Ok((side, Some(o))) }
                Res::Unknown => { let mut o = st.clone(); self.add_pc(&mut o, oth); o.model = None; o.notes.push("unknown branch".into()); self.add_pc(st, mine); self.rep.forks += 1; Ok((side, Some(o))) }
            }
        } else {
            let pc = st.pc.clone();
            let a = self.sv.check(&mut self.cx, &pc, c, None);
            let b = self.sv.check(&mut self.cx, &pc, nc, None);
            let (fa, ma) = match a { Res::Sat(m) => (true, Some(m)), Res::Unsat => (false, None), Res::Unknown => (true, None) };
            let (fb, mb) = match b { Res::Sat(m) => (true, Some(m)), Res::Unsat => (false, None), Res::Unknown => (true, None) };
            match (fa, fb) {
                (false, false) => { self.rep.pruned += 1; Err(Stop::End) }
                (true, false) => { st.model = ma; st.known.insert(c, 1); Ok((true, None)) }
                (false, true) => { st.model = mb; st.known.insert(c, 0); Ok((false, None)) }
                (true, true) => { let mut o = st.clone(); self.add_pc(&mut o, nc); o.model = mb; self.add_pc(st, c); st.model = ma; self.rep.forks += 1; Ok((true, Some(o))) }
            }
        }
    }
    /// Fork a boolean at the current instruction (which is re-executed in the other state).
    fn fork_bool(&mut self, st: &mut State, c: E) -> X<bool> {
        let (b, o) = self.branch(st, c)?;
        if let Some(mut o) = o { o.frames.last_mut().unwrap().ip -= 1; self.work.push(o); }
        Ok(b)
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> X<u128> {
        let e = match v { Val::C(c) => return Ok(*c), Val::S(e) => *e, _ => return err("concretize agg") };
        if let Some(c) = st.known.get(&e) { return Ok(*c); }
        let m = match self.model_of(st) { Some(m) => m, None => return err("no model for concretization") };
        let k = self.cx.eval(e, &m).b();
        let kc = self.cx.c(k, w);
        let eq = self.cx.eq(e, kc);
        let b = self.fork_bool(st, eq)?;
        debug_assert!(b); let _ = b;
        st.known.insert(e, k);
        Ok(k)
    }

    // ------------------------------------------------------------------ driver
    pub fn run(&mut self, fname: &str, args: &[u64]) -> Result<(), String> {
        let f = self.m.func(fname)?;
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, (_, r)) in f.params.iter().enumerate() { regs[*r as usize] = Val::C(*args.get(i).unwrap_or(&0) as u128); }
        let st = State { frames: vec![Frame { func: f, blk: 0, ip: 0, prev: 0, regs, allocas: vec![] }], mem: BTreeMap::new(), pc: vec![], model: Some(Rc::new(Model::new(HashMap::new()))), known: HashMap::new(), inputs: vec![], expect_panic: false, may_panic: false, next: 0x7000_0000_0000, steps: 0, asserts: 0, depth: 0, zh: vec![], limbmap: HashMap::new(), notes: vec![] };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.o.time { self.rep.inconclusive.push(format!("time limit {} s reached with {} states pending", self.o.time, self.work.len() + 1)); break; }
            if self.rep.paths > self.o.max_paths { self.rep.inconclusive.push(format!("path limit reached ({})", self.o.max_paths)); break; }
            if self.rep.cex.len() >= self.o.max_cex { break; }
            if self.rep.inconclusive.len() > 20 { break; }
            match self.run_state(&mut st) {
                Ok(()) | Err(Stop::End) => {}
                Err(Stop::Err(e)) => { let w = self.where_(&st); if self.o.trace { eprintln!("ERR {} at {}", e, w); }
                    // an error on an infeasible path is not an error
                    if st.model.is_none() && self.model_of(&mut st).is_none() { self.rep.inconclusive.push(format!("{} (path feasibility unknown) at {}", e, w)); }
                    else if e.starts_with("step limit") { let ins = self.inputs_of(&mut st); self.rep.cex.push(Cex { kind: "hang".into(), id: 0, msg: format!("{} at {}", e, w), inputs: ins }); }
                    else { self.rep.inconclusive.push(format!("{} at {}", e, w)); } }
            }
            self.rep.steps += st.steps;
        }
        Ok(())
    }
    fn where_(&self, st: &State) -> String { st.frames.iter().rev().take(4).map(|f| { let b = &f.func.blocks[f.blk]; let i = b.insts.get(f.ip.saturating_sub(1)); format!("{}:{} [{}]", self.m.fnames.get(&f.func.name).unwrap_or(&f.func.name), b.name, i.map(|i| f.func.lines[i.text as usize].trim().chars().take(120).collect::<String>()).unwrap_or_default()) }).collect::<Vec<_>>().join(" <- ") }
    fn inputs_of(&mut self, st: &mut State) -> Vec<Big> {
        let m = self.model_of(st);
        let ins = st.inputs.clone();
        ins.iter().map(|e| match &m { Some(m) => match self.cx.eval(*e, m) { EV::B(x) => Big::from(x), EV::I(x) => x }, None => Big::zero() }).collect()
    }
    fn finish(&mut self, st: &mut State, panicked: Option<String>) -> X<()> {
        // sanity: the path must be feasible
        if st.model.is_none() {
            let t = self.cx.tru();
            match self.sv.check(&mut self.cx, &st.pc.clone(), t, None) { Res::Sat(m) => st.model = Some(m), Res::Unsat => { self.rep.pruned += 1; return Err(Stop::End); } Res::Unknown => {
                if panicked.is_some() != st.expect_panic && !(panicked.is_some() && st.may_panic) { self.rep.inconclusive.push(format!("undecided feasibility of a failing path: {:?}", panicked)); }
                self.rep.paths += 1; return Err(Stop::End); } }
        }
        self.rep.paths += 1;
        let bad = match (&panicked, st.expect_panic) { (Some(_), true) => { self.rep.panics_ok += 1; false } (Some(_), false) if st.may_panic => { self.rep.panics_ok += 1; false } (None, false) => false, _ => true };
        if bad { let ins = self.inputs_of(st); let (k, m) = match panicked { Some(p) => ("panic", p), None => ("nopanic", "expected a panic, returned normally".into()) }; self.rep.cex.push(Cex { kind: k.into(), id: 0, msg: m, inputs: ins }); }
        else if self.rep.path_inputs.len() < self.o.keep_paths || (self.rep.paths % 17 == 0 && self.rep.path_inputs.len() < 4 * self.o.keep_paths) { let ins = self.inputs_of(st); self.rep.path_inputs.push(ins); }
        Err(Stop::End)
    }
    fn goto(&mut self, st: &mut State, l: &str) -> X<()> {
        let (func, prev) = { let f = st.frames.last().unwrap(); (f.func.clone(), f.blk) };
        let b = func.bidx[l];
        // phis
        let mut upd = vec![]; let mut ip = 0;
        let pname = &func.blocks[prev].name;
        for i in &func.blocks[b].insts {
            if let Ins::Phi { inc, .. } = &i.ins {
                let (o, _) = match inc.iter().find(|x| x.1 == *pname) { Some(x) => x, None => return err("phi predecessor") };
                upd.push((i.dst, self.opd(st, o))); ip += 1;
            } else { break; }
        }
        let f = st.frames.last_mut().unwrap(); f.prev = prev; f.blk = b; f.ip = ip;
        for (d, v) in upd { if let Some(d) = d { f.regs[d as usize] = v; } }
        Ok(())
    }
    fn run_state(&mut self, st: &mut State) -> X<()> {
        loop {
            st.steps += 1;
            if st.steps > self.o.max_steps { return err(format!("step limit {} exceeded", self.o.max_steps)); }
            if st.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.o.time { return err("time limit reached inside a path"); }
            let func = st.frames.last().unwrap().func.clone();
            let (blk, ip) = { let f = st.frames.last_mut().unwrap(); f.ip += 1; (f.blk, f.ip - 1) };
            let inst = &func.blocks[blk].insts[ip];
            self.step(st, inst, &func)?;
        }
    }
    fn binop(&mut self, st: &mut State, op: &str, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = mask(w);
            let r = match op {
                "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y),
                "udiv" => { if y == 0 { return err("division by zero (UB)"); } x / y } "urem" => { if y == 0 { return err("division by zero (UB)"); } x % y }
                "sdiv" => { if y == 0 { return err("division by zero (UB)"); } sx(x, w).wrapping_div(sx(y, w)) as u128 } "srem" => { if y == 0 { return err("division by zero (UB)"); } sx(x, w).wrapping_rem(sx(y, w)) as u128 }
                "and" => x & y, "or" => x | y, "xor" => x ^ y,
                "shl" => if y >= w as u128 { 0 } else { x << y }, "lshr" => if y >= w as u128 { 0 } else { x >> y }, "ashr" => (sx(x, w) >> y.min(w as u128 - 1)) as u128,
                _ => return err("binop"),
            };
            return Ok(Val::C(r & m));
        }
        let bb = if matches!(op, "shl" | "lshr" | "ashr") { Val::C(self.concretize(st, b, w)?) } else { b.clone() };
        let x = self.e(a, w); let y = self.e(&bb, w);
        if matches!(op, "udiv" | "urem" | "sdiv" | "srem") && self.cx.nd(y).lo == 0 { // LLVM leaves x/0 undefined; the source must have excluded it
            let z = self.cx.c(0, w); let t = self.cx.eq(y, z); let nz = self.cx.not(t);
            if self.simp(st, nz) != Some(true) { self.assert_(st, nz, 9998, "ub-div0")?; st.known.insert(t, 0); }
        }
        let r = match op {
            "add" => self.cx.add(x, y), "sub" => self.cx.sub(x, y), "mul" => self.cx.mul(x, y), "udiv" => self.cx.udiv(x, y), "urem" => self.cx.urem(x, y),
            "sdiv" => self.cx.sdiv(x, y, false), "srem" => self.cx.sdiv(x, y, true),
            "and" => self.cx.and(x, y), "or" => self.cx.or(x, y), "xor" => self.cx.xor(x, y),
            "shl" => self.cx.shl(x, y), "lshr" => self.cx.lshr(x, y), "ashr" => self.cx.ashr(x, y),
            _ => return err("binop"),
        };
        Ok(self.vs(r))
    }
    fn cmp(&mut self, pred: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.e(a, w); let y = self.e(b, w);
        let r = match pred {
            "eq" => self.cx.eq(x, y), "ne" => { let t = self.cx.eq(x, y); self.cx.not(t) }
            "ult" => self.cx.ult(x, y), "ugt" => self.cx.ult(y, x), "ule" => self.cx.ule(x, y), "uge" => self.cx.ule(y, x),
            "slt" => self.cx.slt(x, y), "sgt" => self.cx.slt(y, x), "sle" => self.cx.sle(x, y), "sge" => self.cx.sle(y, x),
            _ => panic!("pred {}", pred),
        };
        self.vs(r)
    }
    fn step(&mut self, st: &mut State, inst: &Inst, func: &Rc<Func>) -> X<()> {
        if self.o.trace { eprintln!("  {} | {}", func.name.len(), func.lines[inst.text as usize].trim()); }
        match &inst.ins {
            Ins::Bin { op, w, a, b, vec } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                if *vec > 0 { if let (Val::Agg(p), Val::Agg(q)) = (x, y) { let mut r = vec![]; for i in 0..p.len() { r.push(self.binop(st, op, *w, &p[i], &q[i])?); } self.set(st, inst.dst, Val::Agg(Rc::new(r))); return Ok(()); } return err("vec bin"); }
                let r = self.binop(st, op, *w, &x, &y)?; self.set(st, inst.dst, r);
            }
            Ins::Cmp { pred, w, a, b, vec } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                if *vec > 0 { if let (Val::Agg(p), Val::Agg(q)) = (x, y) { let mut r = vec![]; for i in 0..p.len() { r.push(self.cmp(pred, *w, &p[i], &q[i])); } self.set(st, inst.dst, Val::Agg(Rc::new(r))); return Ok(()); } return err("vec cmp"); }
                let r = if let (Val::C(x), Val::C(y)) = (&x, &y) {
                    let (x, y) = (*x, *y); let (sx_, sy) = (sx(x, *w), sx(y, *w));
                    Val::C(match pred.as_str() { "eq" => x == y, "ne" => x != y, "ult" => x < y, "ugt" => x > y, "ule" => x <= y, "uge" => x >= y, "slt" => sx_ < sy, "sgt" => sx_ > sy, "sle" => sx_ <= sy, "sge" => sx_ >= sy, _ => return err("pred") } as u128)
                } else { self.cmp(pred, *w, &x, &y) };
                self.set(st, inst.dst, r);
            }
            Ins::Cast { op, from, to, a } => {
                let x = self.opd(st, a);
                let r = match (from, to) {
                    (Ty::Vec(n, fe), Ty::Vec(m, te)) if n == m => { if let Val::Agg(p) = x { let mut r = vec![]; for i in 0..p.len() { r.push(self.cast(op, fe.bits(), te.bits(), &p[i])); } Val::Agg(Rc::new(r)) } else { return err("vec cast") } }
                    (Ty::Vec(n, fe), t) if t.is_scalar() && op == "bitcast" => { if let Val::Agg(p) = x { let w = fe.bits(); let mut acc: Option<E> = None; for i in 0..*n as usize { let b = self.e(&p[i], w); acc = Some(match acc { None => b, Some(a) => self.cx.concat(b, a) }); } let e = acc.unwrap(); self.vs(e) } else { return err("vec cast") } }
                    (t, Ty::Vec(n, te)) if t.is_scalar() && op == "bitcast" => { let tw = t.bits(); let w = te.bits(); let e = self.e(&x, tw); let mut r = vec![]; for i in 0..*n as u32 { let y = self.cx.extract(e, i * w, w); r.push(self.vs(y)); } Val::Agg(Rc::new(r)) }
                    (Ty::Vec(n, fe), Ty::Vec(m, te)) => { if let Val::Agg(p) = x { // reshape through bytes
                            let (fw, tw) = (fe.bits(), te.bits()); let mut bits: Vec<E> = vec![]; let g = fw.min(tw);
                            for i in 0..*n as usize { let e = self.e(&p[i], fw); for k in 0..fw / g { bits.push(self.cx.extract(e, k * g, g)); } }
                            let per = (tw / g) as usize; let mut r = vec![]; for i in 0..*m as usize { let mut acc: Option<E> = None; for k in 0..per { let b = bits[i * per + k]; acc = Some(match acc { None => b, Some(a) => self.cx.concat(b, a) }); } let e = acc.unwrap(); r.push(self.vs(e)); } Val::Agg(Rc::new(r)) } else { return err("vec cast") } }
                    _ => self.cast(op, from.bits(), to.bits(), &x),
                };
                self.set(st, inst.dst, r);
            }
            Ins::Select { c, ty, a, b, cvec } => {
                let cv = self.opd(st, c);
                if *cvec { if let (Val::Agg(cs), Val::Agg(p), Val::Agg(q)) = (cv, self.opd(st, a), self.opd(st, b)) { let w = if let Ty::Vec(_, e) = ty { e.bits() } else { 0 }; let mut r = vec![]; for i in 0..cs.len() { let ce = self.e(&cs[i], 1); let x = self.e(&p[i], w); let y = self.e(&q[i], w); let z = self.cx.ite(ce, x, y); r.push(self.vs(z)); } self.set(st, inst.dst, Val::Agg(Rc::new(r))); return Ok(()); } return err("vec select"); }
                let r = match cv {
                    Val::C(x) => if x != 0 { self.opd(st, a) } else { self.opd(st, b) },
                    Val::S(ce) => {
                        if let Some(k) = self.simp(st, ce) { if k { self.opd(st, a) } else { self.opd(st, b) } }
                        else {
                            let (x, y) = (self.opd(st, a), self.opd(st, b));
                            let both_const = matches!((&x, &y), (Val::C(_), Val::C(_)));
                            let fork = !ty.is_scalar() || *ty == Ty::Ptr || (both_const && ty.bits() >= 32) || (self.o.fork_select && ty.bits() > 1);
                            if fork { if self.fork_bool(st, ce)? { x } else { y } }
                            else { let w = ty.bits(); let p = self.e(&x, w); let q = self.e(&y, w); let r = self.cx.ite(ce, p, q); self.vs(r) }
                        }
                    }
                    _ => return err("select"),
                };
                self.set(st, inst.dst, r);
            }
            Ins::Load { ty, p } => {
                let pv = self.opd(st, p);
                let r = match pv { Val::C(a) => self.load_ty(st, a as u64, ty)?, Val::S(e) => self.load_sym(st, e, ty)?, _ => return err("load") };
                self.set(st, inst.dst, r);
            }
            Ins::Store { ty, v, p } => { let pv = self.opd(st, p); let a = self.concretize(st, &pv, 64)? as u64; let x = self.opd(st, v); self.store_ty(st, a, ty, &x)?; }
            Ins::Gep { base, idx } => {
                let mut cur = self.opd(st, base);
                for i in idx {
                    match i {
                        GepIdx::Const(c) => { if *c != 0 { cur = self.binop(st, "add", 64, &cur, &Val::C(*c as u64 as u128))?; } }
                        GepIdx::Scaled(o, w, s) => {
                            let v = self.opd(st, o);
                            let v = match v { Val::C(c) => Val::C(sx(c, *w) as u64 as u128), Val::S(e) => { let e = if *w < 64 { self.cx.sext(e, 64) } else { self.cx.extract(e, 0, 64) }; Val::S(e) } v => v };
                            let t = self.binop(st, "mul", 64, &v, &Val::C(*s as u128))?; cur = self.binop(st, "add", 64, &cur, &t)?;
                        }
                    }
                }
                self.set(st, inst.dst, cur);
            }
            Ins::Alloca { size } => { let a = self.alloc(st, *size); st.frames.last_mut().unwrap().allocas.push(a); self.set(st, inst.dst, Val::C(a as u128)); }
            Ins::Phi { .. } => return err("phi out of place"),
            Ins::Extract { a, idx } => { let mut v = self.opd(st, a); for i in idx { v = match v { Val::Agg(f) => f[*i].clone(), _ => return err("extractvalue") }; } self.set(st, inst.dst, v); }
            Ins::Insert { a, ty: _, v, idx } => { let base = self.opd(st, a); let x = self.opd(st, v); let r = Self::insert(base, x, idx); self.set(st, inst.dst, r); }
            Ins::Freeze { a } => { let v = self.opd(st, a); self.set(st, inst.dst, v); }
            Ins::Br(l) => self.goto(st, l)?,
            Ins::CondBr { c, t, f } => {
                match self.opd(st, c) {
                    Val::C(x) => { let l = if x != 0 { t } else { f }; self.goto(st, l)?; }
                    Val::S(e) => {
                        let (b, o) = self.branch(st, e)?;
                        if let Some(mut o) = o { let l = if b { f } else { t }; self.goto(&mut o, l)?; self.work.push(o); }
                        let l = if b { t } else { f }; self.goto(st, l)?;
                    }
                    _ => return err("br"),
                }
            }
            Ins::Switch { w, v, def, cases } => {
                match self.opd(st, v) {
                    Val::C(x) => { let l = cases.iter().find(|c| c.0 == x).map(|c| &c.1).unwrap_or(def); self.goto(st, l)?; }
                    Val::S(e) => {
                        for (k, l) in cases {
                            let kc = self.cx.c(*k, *w); let eq = self.cx.eq(e, kc);
                            if let Some(b) = self.simp(st, eq) { if b { self.goto(st, l)?; return Ok(()); } continue; }
                            if self.fork_bool(st, eq)? { self.goto(st, l)?; return Ok(()); }
                        }
                        self.goto(st, def)?;
                    }
                    _ => return err("switch"),
                }
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.opd(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.remove(&a); }
                if st.frames.is_empty() { st.frames.push(Frame { func: fr.func, blk: fr.blk, ip: fr.ip, prev: 0, regs: vec![], allocas: vec![] }); return self.finish(st, None); }
                self.after_call(st, r)?;
            }
            Ins::Call { callee, ret, args, .. } => self.call(st, inst, callee, ret, args)?,
            Ins::AtomicRmw { op, p, w, v } => {
                let pv = self.opd(st, p); let a = self.concretize(st, &pv, 64)? as u64; let x = self.opd(st, v);
                let old = self.load_bits(st, a, (*w as u64 + 7) / 8)?;
                let new = match op.as_str() { "add" => self.binop(st, "add", *w, &old, &x)?, "sub" => self.binop(st, "sub", *w, &old, &x)?, "or" => self.binop(st, "or", *w, &old, &x)?, "and" => self.binop(st, "and", *w, &old, &x)?, "xchg" => x, _ => return err("atomicrmw") };
                self.store_bits(st, a, (*w as u64 + 7) / 8, &new)?; self.set(st, inst.dst, old);
            }
            Ins::CmpXchg { p, w, cmp, new } => {
                let pv = self.opd(st, p); let a = self.concretize(st, &pv, 64)? as u64; let c = self.opd(st, cmp); let nv = self.opd(st, new);
                let old = self.load_bits(st, a, (*w as u64 + 7) / 8)?;
                let eq = self.cmp("eq", *w, &old, &c); let k = self.concretize(st, &eq, 1)?;
                if k == 1 { self.store_bits(st, a, (*w as u64 + 7) / 8, &nv)?; }
                self.set(st, inst.dst, Val::Agg(Rc::new(vec![old, Val::C(k)])));
            }
            Ins::ExtElem { a, i } => { let v = self.opd(st, a); let iv = self.opd(st, i); let k = self.concretize(st, &iv, 64)?; if let Val::Agg(f) = v { let x = f[k as usize].clone(); self.set(st, inst.dst, x); } else { return err("extractelement"); } }
            Ins::InsElem { a, v, i, .. } => { let b = self.opd(st, a); let x = self.opd(st, v); let iv = self.opd(st, i); let k = self.concretize(st, &iv, 64)?; let r = Self::insert(b, x, &[k as usize]); self.set(st, inst.dst, r); }
            Ins::Shuffle { a, b, n, mask: mk, .. } => {
                if let (Val::Agg(p), Val::Agg(q), Val::Agg(m)) = (self.opd(st, a), self.opd(st, b), self.opd(st, mk)) {
                    let r = m.iter().map(|k| if let Val::C(k) = k { let k = *k as usize; if k < *n as usize { p[k].clone() } else { q[k - *n as usize].clone() } } else { Val::C(0) }).collect();
                    self.set(st, inst.dst, Val::Agg(Rc::new(r)));
                } else { return err("shuffle"); }
            }
            Ins::Fence => {}
            Ins::Unreachable => return err("reached `unreachable`"),
            Ins::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }
    fn insert(b: Val, x: Val, idx: &[usize]) -> Val {
        if idx.is_empty() { return x; }
        match b { Val::Agg(f) => { let mut v = (*f).clone(); let old = v[idx[0]].clone(); v[idx[0]] = Self::insert(old, x, &idx[1..]); Val::Agg(Rc::new(v)) } o => o }
    }
    fn cast(&mut self, op: &str, fw: u32, tw: u32, x: &Val) -> Val {
        match x {
            Val::C(c) => Val::C(match op { "sext" => sx(*c, fw) as u128 & mask(tw), _ => c & mask(tw) }),
            Val::S(e) => { let r = match op { "zext" => self.cx.zext(*e, tw), "sext" => self.cx.sext(*e, tw), _ => if tw < fw { self.cx.extract(*e, 0, tw) } else if tw > fw { self.cx.zext(*e, tw) } else { *e } }; self.vs(r) }
            v => v.clone(),
        }
    }
    /// resume the caller after a call returned value r
    fn after_call(&mut self, st: &mut State, r: Option<Val>) -> X<()> {
        let func = st.frames.last().unwrap().func.clone();
        let (blk, ip) = { let f = st.frames.last().unwrap(); (f.blk, f.ip - 1) };
        let inst = &func.blocks[blk].insts[ip];
        if let Ins::Call { normal, .. } = &inst.ins {
            if let Some(r) = r { self.set(st, inst.dst, r); }
            if let Some(l) = normal { self.goto(st, l)?; }
            Ok(())
        } else { err("after_call") }
    }
    /// load through a symbolic address: table lookup when the object is concrete, otherwise fork
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> X<Val> {
        if ty.is_scalar() {
            let n = self.cx.nd(e).clone(); let w = ty.bits(); let bytes = (w as u64 + 7) / 8;
            if let Some(m) = self.model_of(st) {
                let a0 = self.cx.eval(e, &m).b() as u64;
                if let Some(o) = self.obj_at(st, a0) {
                    // address = constant + offset expression
                    let (base, off) = if let Op::Add = n.op { match self.cx.cv(n.b) { Some(k) => (k as u64, n.a), None => (0, e) } } else if let Op::Concat = n.op { (0, e) } else { (0, e) };
                    let (base, off, olo, ohi, ones) = { let q = self.cx.nd(off); if base == 0 { (0u64, e, n.lo, n.hi, n.ones) } else { (base, off, q.lo, q.hi, q.ones) } };
                    let lo = base.wrapping_add(olo as u64); let hi = base.wrapping_add(ohi as u64);
                    let mut rng = (lo, hi);
                    let fits = |r: (u64, u64)| r.0 >= o.base && r.1 <= r.0 + 8192 && r.1 + bytes <= o.base + o.size && r.0 <= r.1;
                    if !fits(rng) && o.size <= 4096 {
                        // ask the solver whether the access stays inside the object
                        let c1 = self.cx.c(o.base as u128, 64); let c2 = self.cx.c((o.base + o.size - bytes) as u128, 64);
                        let l = self.cx.ult(e, c1); let h = self.cx.ult(c2, e); let bad = self.cx.or(l, h);
                        let pc = st.pc.clone();
                        if let Res::Unsat = self.sv.check(&mut self.cx, &pc, bad, st.model.as_ref().cloned().as_ref()) { rng = (o.base.max(lo), (o.base + o.size - bytes).min(hi)); }
                    }
                    if fits(rng) {
                        let stride = if ones == 0 { 1 } else { 1u64 << ones.trailing_zeros().min(6) };
                        let first = if (rng.0.wrapping_sub(base)) % stride == 0 { rng.0 } else { rng.0 + (stride - (rng.0.wrapping_sub(base)) % stride) };
                        let mut tab = vec![]; let mut ok = true; let mut a = first;
                        while a <= rng.1 { match self.load_bits(st, a, bytes)? { Val::C(c) => tab.push(c & mask(w)), _ => { ok = false; break; } } a += stride; }
                        if ok && !tab.is_empty() && tab.len() <= 4096 {
                            // index = (off - first_off) / stride
                            let f0 = self.cx.c(first.wrapping_sub(base) as u128, 64);
                            let d = self.cx.sub(off, f0);
                            let idx = self.cx.lshr_k(d, stride.trailing_zeros());
                            let r = self.table(idx, &tab, w);
                            return Ok(self.vs(r));
                        }
                    }
                }
            }
        }
        let a = self.concretize(st, &Val::S(e), 64)? as u64;
        self.load_ty(st, a, ty)
    }
    fn table(&mut self, idx: E, tab: &[u128], w: u32) -> E {
        let iw = self.cx.w(idx);
        if tab.iter().all(|x| *x == tab[0]) { return self.cx.c(tab[0], w); }
        let resize = |cx: &mut Ctx, e: E| { if iw > w { cx.extract(e, 0, w) } else { cx.zext(e, w) } };
        // templates: c0 + idx, c0 + idx / d, c0 + idx % d
        for d in [1u128, 2, 4, 8, 10, 16, 100, 1000] {
            let c0 = tab[0];
            if tab.iter().enumerate().all(|(i, x)| *x == (c0 + i as u128 / d) & mask(w)) { let dc = self.cx.c(d, iw); let q = self.cx.udiv(idx, dc); let q = resize(&mut self.cx, q); let k = self.cx.c(c0, w); return self.cx.add(q, k); }
            if d > 1 && tab.iter().enumerate().all(|(i, x)| *x == (c0 + i as u128 % d) & mask(w)) { let dc = self.cx.c(d, iw); let q = self.cx.urem(idx, dc); let q = resize(&mut self.cx, q); let k = self.cx.c(c0, w); return self.cx.add(q, k); }
        }
        self.tab_tree(idx, tab, 0, w)
    }
    fn tab_tree(&mut self, idx: E, tab: &[u128], off: u128, w: u32) -> E {
        if tab.iter().all(|x| *x == tab[0]) { return self.cx.c(tab[0], w); }
        let iw = self.cx.w(idx);
        if tab.len() > 2 && tab.windows(2).all(|p| p[1] == p[0] + 1) { // affine run
            let k = self.cx.c(off, iw); let d = self.cx.sub(idx, k); let d = if iw > w { self.cx.extract(d, 0, w) } else { self.cx.zext(d, w) }; let c = self.cx.c(tab[0], w); return self.cx.add(d, c);
        }
        // split at the best boundary: first change of pattern near the middle
        let mid = tab.len() / 2;
        let l = self.tab_tree(idx, &tab[..mid], off, w); let r = self.tab_tree(idx, &tab[mid..], off + mid as u128, w);
        let k = self.cx.c(off + mid as u128, iw); let c = self.cx.ult(idx, k);
        self.cx.ite(c, l, r)
    }

    fn panic_path(&mut self, st: &mut State, name: &str, args: &[Val]) -> X<()> {
        let mut loc = String::new();
        for a in args.iter().rev() { if let Val::C(p) = a { let p = *p as u64; if (0x1000_0000..0x4000_0000).contains(&p) {
            if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(line))) = (self.load_bits(st, p, 8), self.load_bits(st, p + 8, 8), self.load_bits(st, p + 16, 4)) {
                if n < 400 { let mut s = String::new(); for i in 0..n as u64 { if let Ok(Val::C(b)) = self.load_bits(st, f as u64 + i, 1) { s.push(b as u8 as char); } } if s.ends_with(".rs") { loc = format!("{}:{}", s, line); break; } }
            } } } }
        let rn = self.m.fnames.get(name).cloned().unwrap_or(name.to_string());
        self.finish(st, Some(format!("{} at {}", rn, loc)))
    }
    fn z(&mut self, st: &State, v: &Val) -> X<E> { match v { Val::C(h) => match st.zh.get(*h as usize) { Some(e) => Ok(*e), None => err("bad integer handle") }, _ => err("symbolic integer handle") } }
    fn newz(&mut self, st: &mut State, e: E) -> Val { st.zh.push(e); Val::C(st.zh.len() as u128 - 1) }
    fn new_input(&mut self, st: &mut State, w: u32) -> Val {
        let k = st.inputs.len();
        if let Some(c) = &self.o.concrete { let v = c.get(k).cloned().unwrap_or(Big::zero()); let e = if w == 0 { self.cx.ic(v) } else { self.cx.c(v.to_u128().unwrap_or(0), w) }; st.inputs.push(e); return if w == 0 { Val::S(e) } else { self.vs(e) }; }
        // variables are shared between paths by (position, width)
        let name = format!("in{}_{}", k, w);
        let id = self.cx.vars.iter().position(|v| v.name == name);
        let e = match id { Some(i) => { let i = i as u32; self.cx.var_node(i, w) } None => self.cx.var(name, w) };
        st.inputs.push(e);
        Val::S(e)
    }
    fn assert_(&mut self, st: &mut State, c: E, id: u64, what: &str) -> X<()> {
        self.rep.asserts += 1; st.asserts += 1; self.rep.assert_ids.insert(id);
        match self.simp(st, c) {
            Some(true) => { self.rep.asserts_trivial += 1; return Ok(()); }
            Some(false) => { if st.model.is_none() { let t = self.cx.tru(); match self.sv.check(&mut self.cx, &st.pc.clone(), t, None) { Res::Sat(m) => st.model = Some(m), Res::Unsat => { self.rep.pruned += 1; return Err(Stop::End); } Res::Unknown => { self.rep.inconclusive.push(format!("assert {} fails on a path of undecided feasibility", id)); return Err(Stop::End); } } }
                let ins = self.inputs_of(st); self.rep.cex.push(Cex { kind: what.into(), id, msg: format!("assertion {}", id), inputs: ins }); self.rep.paths += 1; return Err(Stop::End); }
            None => {}
        }
        let nc = self.cx.not(c); let pc = st.pc.clone(); let m = st.model.clone();
        if let Some(m) = &m { if self.cx.eval(nc, m).b() == 1 { let ins = self.inputs_of(st); self.rep.cex.push(Cex { kind: what.into(), id, msg: format!("assertion {}", id), inputs: ins }); self.rep.paths += 1; return Err(Stop::End); } }
        match self.sv.check(&mut self.cx, &pc, nc, m.as_ref()) {
            Res::Unsat => { Ok(()) }
            Res::Sat(m2) => { let mut o = st.clone(); o.model = Some(m2); let ins = self.inputs_of(&mut o); self.rep.cex.push(Cex { kind: what.into(), id, msg: format!("assertion {}", id), inputs: ins }); self.add_pc(st, c); Ok(()) }
            Res::Unknown => { if self.o.trace { eprintln!("unknown assert {}", id); } self.rep.inconclusive.push(format!("assertion {} undecided", id)); Err(Stop::End) }
        }
    }
    fn overflow(&mut self, op: &str, w: u32, x: E, y: E) -> (E, E) {
        match op {
            "uadd" => { let r = self.cx.add(x, y); let nx = self.cx.not(x); let o = self.cx.ult(nx, y); (r, if w == 1 { let nx = self.cx.not(x); self.cx.and(nx, y); o } else { o }) }
            "usub" => { let r = self.cx.sub(x, y); let o = self.cx.ult(x, y); (r, o) }
            "umul" => {
                let r = self.cx.mul(x, y);
                let (hx, hy) = (self.cx.nd(x).hi, self.cx.nd(y).hi);
                if hx.checked_mul(hy).map_or(false, |h| h <= mask(w)) { let f = self.cx.fls(); return (r, f); }
                if w <= 64 { let a = self.cx.zext(x, 2 * w); let b = self.cx.zext(y, 2 * w); let p = self.cx.mul(a, b); let lim = self.cx.c(mask(w), 2 * w); let o = self.cx.ult(lim, p); let lo = self.cx.extract(p, 0, w); (lo, o) }
                else { let a = self.cx.iofbv(x); let b = self.cx.iofbv(y); let p = self.cx.imul(a, b); let lim = self.cx.ic(Big::from(mask(w))); let o = self.cx.ilt(lim, p); (r, o) }
            }
            "sadd" | "ssub" => {
                let r = if op == "sadd" { self.cx.add(x, y) } else { self.cx.sub(x, y) };
                if w < 128 { let a = self.cx.sext(x, w + 1); let b = self.cx.sext(y, w + 1); let s = if op == "sadd" { self.cx.add(a, b) } else { self.cx.sub(a, b) }; let rr = self.cx.sext(r, w + 1); let e = self.cx.eq(s, rr); let o = self.cx.not(e); (r, o) }
                else { let (sa, sb, sr) = (self.cx.sign(x), self.cx.sign(y), self.cx.sign(r)); let d = self.cx.xor(sa, sb); let same = if op == "sadd" { self.cx.not(d) } else { d }; let ch = self.cx.xor(sa, sr); let o = self.cx.and(same, ch); (r, o) }
            }
            _ => { // smul
                let r = self.cx.mul(x, y);
                let a = self.cx.sext(x, (2 * w).min(128)); let b = self.cx.sext(y, (2 * w).min(128)); let p = self.cx.mul(a, b); let rr = self.cx.sext(r, (2 * w).min(128)); let e = self.cx.eq(p, rr); let o = self.cx.not(e); (r, o)
            }
        }
    }
    fn call(&mut self, st: &mut State, inst: &Inst, callee: &Callee, ret: &Ty, args: &[(Ty, Opd)]) -> X<()> {
        let name: String = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Indirect(o) => { let v = self.opd(st, o); let a = self.concretize(st, &v, 64)? as u64; match self.m.fbyaddr.get(&a) { Some(n) => n.clone(), None => return err(format!("indirect call to {:#x}", a)) } }
        };
        if let Some(r) = name.strip_prefix("llvm.") { return self.intrinsic(st, inst, r, ret, args); }
        let av: Vec<Val> = args.iter().map(|(_, o)| self.opd(st, o)).collect();
        if name.starts_with("sym_") { return self.api(st, inst, &name, &av); }
        match name.as_str() {
            "malloc" => { let n = self.concretize(st, &av[0], 64)? as u64; if n > 1 << 26 { return err("huge allocation"); } let a = self.alloc(st, n); return self.after_call(st, Some(Val::C(a as u128))); }
            "calloc" => { let n = (self.concretize(st, &av[0], 64)? * self.concretize(st, &av[1], 64)?) as u64; if n > 1 << 26 { return err("huge allocation"); } let a = self.alloc(st, n); return self.after_call(st, Some(Val::C(a as u128))); }
            "realloc" => {
                let p = self.concretize(st, &av[0], 64)? as u64; let n = self.concretize(st, &av[1], 64)? as u64; if n > 1 << 26 { return err("huge allocation"); }
                let old = match st.mem.get(&p) { Some(o) => o.size, None => return err("realloc of unknown block") };
                let a = self.alloc(st, n); self.copy(st, a, p, old.min(n))?; st.mem.remove(&p);
                return self.after_call(st, Some(Val::C(a as u128)));
            }
            "posix_memalign" => { let n = self.concretize(st, &av[2], 64)? as u64; let a = self.alloc(st, n); let p = self.concretize(st, &av[0], 64)? as u64; self.store_bits(st, p, 8, &Val::C(a as u128))?; return self.after_call(st, Some(Val::C(0))); }
            "free" => { let p = self.concretize(st, &av[0], 64)? as u64; if p != 0 && st.mem.remove(&p).is_none() { return err("free of unknown block (double free?)"); } return self.after_call(st, None); }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (self.concretize(st, &av[0], 64)? as u64, self.concretize(st, &av[1], 64)? as u64, self.concretize(st, &av[2], 64)? as u64);
                let mut acc = self.cx.c(0, 32);
                if name == "bcmp" { // equality only: compare in limb-sized pieces
                    let mut all = self.cx.tru(); let mut i = 0;
                    while i < n {
                        let k = if n - i >= 8 && self.whole8(st, p + i, q + i) { 8 } else if n - i >= 4 { 4 } else { 1 };
                        let x = self.load_bits(st, p + i, k)?; let y = self.load_bits(st, q + i, k)?; let x = self.e(&x, k as u32 * 8); let y = self.e(&y, k as u32 * 8);
                        let eq = self.cx.eq(x, y); all = self.cx.and(eq, all); i += k;
                    }
                    let z = self.cx.c(0, 32); let one = self.cx.c(1, 32); let r = self.cx.ite(all, z, one); let v = self.vs(r); return self.after_call(st, Some(v));
                }
                for i in (0..n).rev() {
                    let x = self.load_bits(st, p + i, 1)?; let y = self.load_bits(st, q + i, 1)?; let x = self.e(&x, 8); let y = self.e(&y, 8);
                    let eq = self.cx.eq(x, y); let lt = self.cx.ult(x, y); let m1 = self.cx.c(mask(32), 32); let p1 = self.cx.c(1, 32);
                    let d = if name == "bcmp" { p1 } else { self.cx.ite(lt, m1, p1) };
                    acc = self.cx.ite(eq, acc, d);
                }
                let v = self.vs(acc); return self.after_call(st, Some(v));
            }
            "memcpy" | "memmove" => { let (d, s, n) = (self.concretize(st, &av[0], 64)? as u64, self.concretize(st, &av[1], 64)? as u64, self.concretize(st, &av[2], 64)? as u64); self.copy(st, d, s, n)?; return self.after_call(st, Some(Val::C(d as u128))); }
            _ => {}
        }
        if name.contains("__rust_no_alloc_shim") { return self.after_call(st, None); }
        if *self.m.noreturn.get(&name).unwrap_or(&false) || name.contains("9panicking") { return self.panic_path(st, &name, &av); }
        if !self.m.fdefs.contains_key(&name) { return err(format!("call to external function {}", name)); }
        let f = match self.m.func(&name) { Ok(f) => f, Err(e) => return err(e) };
        let rn = self.m.fnames.get(&name).cloned().unwrap_or(name.clone());
        let mut f = f; let mut rn = match rn.rsplit_once('.') { Some((h, t)) if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) => h.to_string(), _ => rn };
        for k in 0..self.o.replace.len() {
            let (from, to, rec) = self.o.replace[k].clone();
            if from != rn || st.frames.iter().any(|fr| (fr.func.name.starts_with("sum_") || fr.func.name.starts_with("lift_"))) { continue; }
            // a contract stands for callees of the code under test only: what the harness itself calls is the real function
            if !st.frames.iter().any(|fr| self.m.fnames.get(&fr.func.name).map_or(false, |n| n.starts_with("hmath::") || n.starts_with("<hmath::") || n.starts_with("<&hmath::"))) { self.rep.direct.insert(from.clone()); continue; }
            if rec && !st.frames.iter().any(|fr| Rc::ptr_eq(&fr.func, &f)) { continue; }
            let g = match self.m.func(&to) { Ok(g) => g, Err(_) => continue };
            if g.params.len() != f.params.len() || g.params.iter().zip(f.params.iter()).any(|(x, y)| x.0 != y.0) { self.rep.inconclusive.push(format!("contract {} does not fit {}", to, from)); continue; }
            self.rep.replaced.insert(format!("{} by {}", from, to));
            f = g; rn = to; break;
        }
        if !self.rep.funcs.contains(&rn) { self.rep.funcs.insert(rn); }
        if st.frames.len() > 4000 { return err("step limit: call depth"); }
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, (_, r)) in f.params.iter().enumerate() { regs[*r as usize] = av[i].clone(); }
        st.frames.push(Frame { func: f, blk: 0, ip: 0, prev: 0, regs, allocas: vec![] });
        Ok(())
    }
    fn whole8(&mut self, st: &State, p: u64, q: u64) -> bool { let mut r = false; for a in [p, q] { if let Some(o) = self.obj_at(st, a) { let off = (a - o.base) as u32; if let Some((_, k)) = o.sym.get(&off) { if *k == 8 { r = true; } } } } r }
    fn api(&mut self, st: &mut State, inst: &Inst, name: &str, a: &[Val]) -> X<()> {
        let _ = inst;
        let r: Option<Val> = match name {
            "sym_u8" => Some(self.new_input(st, 8)), "sym_u16" => Some(self.new_input(st, 16)), "sym_u32" => Some(self.new_input(st, 32)), "sym_u64" => Some(self.new_input(st, 64)), "sym_u128" => Some(self.new_input(st, 128)),
            "sym_assume" => {
                let c = self.e(&a[0], 1);
                match self.simp(st, c) { Some(true) => {} Some(false) => { self.rep.pruned += 1; return Err(Stop::End); } None => {
                    let m = st.model.clone();
                    let sat_now = m.as_ref().map_or(false, |m| self.cx.eval(c, m).b() == 1);
                    if !sat_now { let pc = st.pc.clone(); match self.sv.check(&mut self.cx, &pc, c, m.as_ref()) { Res::Unsat => { self.rep.pruned += 1; return Err(Stop::End); } Res::Sat(m) => st.model = Some(m), Res::Unknown => st.model = None } }
                    self.add_pc(st, c); } }
                None
            }
            "sym_assert" => { let c = self.e(&a[0], 1); let id = match &a[1] { Val::C(x) => *x as u64, _ => 0 }; self.assert_(st, c, id, "assert")?; None }
            "sym_expect_panic" => { st.expect_panic = true; None }
            "sym_may_panic" => { let v = match &a[0] { Val::C(x) => *x, _ => 0 }; st.may_panic = v != 0; None }
            "sym_cover" => { let id = match &a[0] { Val::C(x) => *x as u64, _ => 0 }; *self.rep.cover.entry(id).or_insert(0) += 1; None }
            "sym_fork" => { let v = self.concretize(st, &a[0], 64)?; Some(Val::C(v)) }
            "sym_fork_bool" => { let v = match &a[0] { Val::C(x) => *x, Val::S(e) => { let e = *e; self.fork_bool(st, e)? as u128 } _ => return err("fork_bool") }; Some(Val::C(v)) }
            "sym_z_var" => { let v = self.new_input(st, 0); let e = match v { Val::S(e) => e, _ => return err("zvar") }; Some(self.newz(st, e)) }
            "sym_z_i64" => { let e = match &a[0] { Val::C(c) => self.cx.ic(Big::from_i128(sx(*c, 64))), Val::S(e) => { // signed reading
                    let e = *e; let s = self.cx.sign(e); let u = self.cx.iofbv(e); let k = self.cx.ic(Big::pow2(64)); let n = self.cx.isub(u, k); self.cx.ite(s, n, u) } _ => return err("z") }; Some(self.newz(st, e)) }
            "sym_z_u128" => { let e = self.e(&a[0], 128); let e = self.cx.iofbv(e); Some(self.newz(st, e)) }
            "sym_z_limbs" | "sym_z_limbs_named" => {
                let p = self.concretize(st, &a[0], 64)? as u64; let n = self.concretize(st, &a[1], 64)? as u64;
                let mut acc = self.cx.ic(Big::zero()); let mut key = vec![]; let mut allc = true;
                for i in 0..n {
                    let v = self.load_bits(st, p + 4 * i, 4)?; let e = self.e(&v, 32); key.push(e); allc &= self.cx.cv(e).is_some();
                    let e = match st.known.get(&e) { Some(k) => self.cx.c(*k, 32), None => e };
                    let x = self.cx.iofbv(e); let k = self.cx.ic(Big::pow2(32 * i as usize)); let t = self.cx.imul(x, k); acc = self.cx.iadd(acc, t);
                }
                if !allc { if let Some(z) = st.limbmap.get(&key) { acc = *z; } }
                if name == "sym_z_limbs_named" && !allc { acc = self.cx.iname(acc); st.limbmap.insert(key, acc); }
                Some(self.newz(st, acc))
            }
            "sym_z_split" => { // write n limbs of z (caller has established 0 <= z < 2^(32 n))
                let z = self.z(st, &a[0])?; let p = self.concretize(st, &a[1], 64)? as u64; let n = self.concretize(st, &a[2], 64)? as u64;
                let mut key = vec![]; let mut allc = true;
                for i in 0..n { let k = self.cx.ic(Big::pow2(32 * i as usize)); let q = self.cx.idiv(z, k); let e = self.cx.tobv(q, 32); key.push(e); allc &= self.cx.cv(e).is_some(); let v = self.vs(e); self.store_bits(st, p + 4 * i, 4, &v)?; }
                if !allc { st.limbmap.insert(key, z); }
                None
            }
            "sym_z_add" | "sym_z_sub" | "sym_z_mul" | "sym_z_fdiv" => { let x = self.z(st, &a[0])?; let y = self.z(st, &a[1])?; if name == "sym_z_fdiv" && self.cx.icv(y).map_or(true, |k| k.neg || k.is_zero()) { let z = self.cx.ic(Big::zero()); let pos = self.cx.ilt(z, y); self.assert_(st, pos, 9999, "assert")?; } let r = match name { "sym_z_add" => self.cx.iadd(x, y), "sym_z_sub" => self.cx.isub(x, y), "sym_z_mul" => self.cx.imul(x, y), _ => self.cx.idiv(x, y) }; Some(self.newz(st, r)) }
            "sym_z_ite" => { let c = self.e(&a[0], 1); let x = self.z(st, &a[1])?; let y = self.z(st, &a[2])?; let r = self.cx.ite(c, x, y); Some(self.newz(st, r)) }
            "sym_z_eq" => { let x = self.z(st, &a[0])?; let y = self.z(st, &a[1])?; let r = self.cx.ieq(x, y); Some(self.vs(r)) }
            "sym_z_lt" => { let x = self.z(st, &a[0])?; let y = self.z(st, &a[1])?; let r = self.cx.ilt(x, y); Some(self.vs(r)) }
            "sym_z_same" => { let x = self.z(st, &a[0])?; let y = self.z(st, &a[1])?; let p = self.sv.lia.poly(&mut self.cx, x); let q = self.sv.lia.poly(&mut self.cx, y); Some(Val::C((p == q) as u128)) }
            "sym_z_tobv" => { let x = self.z(st, &a[0])?; let r = self.cx.tobv(x, 128); Some(self.vs(r)) }
            "sym_z_uf" => { // uninterpreted function id(x, y)
                let id = match &a[0] { Val::C(x) => *x as u32, _ => 0 }; let x = self.z(st, &a[1])?; let y = self.z(st, &a[2])?; let r = self.cx.uf(id, 0, x, y, NIL); Some(self.newz(st, r)) }
            "sym_trace" => { eprintln!("TRACE {:?}", a); None }
            _ => return err(format!("unknown api {}", name)),
        };
        self.after_call(st, r)
    }
    fn intrinsic(&mut self, st: &mut State, inst: &Inst, r: &str, ret: &Ty, args: &[(Ty, Opd)]) -> X<()> {
        let base = r.split('.').collect::<Vec<_>>();
        let _ = inst;
        if r.starts_with("lifetime") || r.starts_with("experimental.noalias") || r.starts_with("assume") || r.starts_with("dbg") || r.starts_with("invariant") || r.starts_with("x86.sse2.pause") || r.starts_with("prefetch") { return self.after_call(st, if r.starts_with("invariant.start") { Some(Val::C(0)) } else { None }); }
        let a: Vec<Val> = args.iter().map(|(_, o)| self.opd(st, o)).collect();
        if r.starts_with("memcpy") || r.starts_with("memmove") { let (d, s, n) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[1], 64)? as u64, self.concretize(st, &a[2], 64)? as u64); self.copy(st, d, s, n)?; return self.after_call(st, None); }
        if r.starts_with("memset") {
            let (d, n) = (self.concretize(st, &a[0], 64)? as u64, self.concretize(st, &a[2], 64)? as u64);
            match &a[1] { Val::C(c) => { let c = *c as u8; if n > 0 { let mut cx = std::mem::replace(&mut self.cx, Ctx::new()); let rr = self.with_obj(st, d, n, |o| { let off = (d - o.base) as u32; Self::clear_sym(&mut cx, o, off, n as u32); for i in 0..n as usize { o.data[off as usize + i] = c; } }); self.cx = cx; rr?; } } v => { let v = v.clone(); for i in 0..n { self.store_bits(st, d + i, 1, &v)?; } } }
            return self.after_call(st, None);
        }
        if r.starts_with("threadlocal.address") || r.starts_with("expect.") || r.starts_with("launder") || r.starts_with("strip.invariant") || r.starts_with("ptrmask") { return self.after_call(st, Some(a[0].clone())); }
        if r.starts_with("is.constant") { return self.after_call(st, Some(Val::C(0))); }
        if r.starts_with("trap") || r.starts_with("ubsantrap") { return self.finish(st, Some("llvm.trap".into())); }
        if base.len() > 2 && base[1] == "with" { // xadd.with.overflow.iN
            let w: u32 = match base.last().unwrap()[1..].parse() { Ok(w) => w, Err(_) => return err(format!("intrinsic {}", r)) };
            let x = self.e(&a[0], w); let y = self.e(&a[1], w); let (v, o) = self.overflow(base[0], w, x, y);
            let v = Val::Agg(Rc::new(vec![self.vs(v), self.vs(o)])); return self.after_call(st, Some(v));
        }
        if let Ty::Vec(..) = ret { return err(format!("vector intrinsic {}", r)); }
        if r.starts_with("vector.reduce") {
            if let Val::Agg(v) = &a[0] { let w = if let Ty::Vec(_, e) = &args[0].0 { e.bits() } else { 0 }; let mut acc = self.e(&v[0], w); for x in &v[1..] { let y = self.e(x, w); acc = match base[2] { "add" => self.cx.add(acc, y), "or" => self.cx.or(acc, y), "and" => self.cx.and(acc, y), "xor" => self.cx.xor(acc, y), "mul" => self.cx.mul(acc, y), "umax" => { let c = self.cx.ult(acc, y); self.cx.ite(c, y, acc) } "umin" => { let c = self.cx.ult(acc, y); self.cx.ite(c, acc, y) } _ => return err(format!("intrinsic {}", r)) }; } let v = self.vs(acc); return self.after_call(st, Some(v)); }
        }
        let w = ret.bits();
        let x = self.e(&a[0], args[0].0.bits());
        let res: E = match base[0] {
            "umin" | "umax" | "smin" | "smax" => { let y = self.e(&a[1], w); let c = if base[0].starts_with('u') { self.cx.ult(x, y) } else { self.cx.slt(x, y) }; if base[0].ends_with("min") { self.cx.ite(c, x, y) } else { self.cx.ite(c, y, x) } }
            "usub" => { let y = self.e(&a[1], w); let c = self.cx.ult(x, y); let z = self.cx.c(0, w); let d = self.cx.sub(x, y); self.cx.ite(c, z, d) }
            "uadd" => { let y = self.e(&a[1], w); let (s, o) = self.overflow("uadd", w, x, y); let m = self.cx.c(mask(w), w); self.cx.ite(o, m, s) }
            "ssub" | "sadd" => { let y = self.e(&a[1], w); let (s, o) = self.overflow(base[0], w, x, y); let sg = self.cx.sign(x); let mx = self.cx.c(mask(w) >> 1, w); let mn = self.cx.c(1u128 << (w - 1), w); let sat = self.cx.ite(sg, mn, mx); self.cx.ite(o, sat, s) }
            "ucmp" | "scmp" => { let w1 = args[0].0.bits(); let y = self.e(&a[1], w1); let (l, g) = if base[0] == "ucmp" { (self.cx.ult(x, y), self.cx.ult(y, x)) } else { (self.cx.slt(x, y), self.cx.slt(y, x)) }; let m1 = self.cx.c(mask(w), w); let p1 = self.cx.c(1, w); let z = self.cx.c(0, w); let t = self.cx.ite(g, p1, z); self.cx.ite(l, m1, t) }
            "abs" => { let s = self.cx.sign(x); let z = self.cx.c(0, w); let n = self.cx.sub(z, x); self.cx.ite(s, n, x) }
            "fshl" | "fshr" => {
                let k = self.concretize(st, &a[2], w)? as u32 % w; let y = self.e(&a[1], w);
                let (hi, lo, s) = (x, y, if base[0] == "fshl" { k } else { (w - k) % w });
                if base[0] == "fshr" && k == 0 { lo } else if s == 0 { hi } else { let h = self.cx.extract(hi, 0, w - s); let l = self.cx.extract(lo, w - s, s); self.cx.concat(h, l) }
            }
            "bswap" => { let mut acc: Option<E> = None; for i in 0..w / 8 { let b = self.cx.extract(x, i * 8, 8); acc = Some(match acc { None => b, Some(h) => self.cx.concat(h, b) }); } acc.unwrap() }
            "bitreverse" => { let mut acc: Option<E> = None; for i in 0..w { let b = self.cx.extract(x, i, 1); acc = Some(match acc { None => b, Some(h) => self.cx.concat(h, b) }); } acc.unwrap() }
            "ctpop" => { let mut acc = self.cx.c(0, w); for i in 0..w { let b = self.cx.extract(x, i, 1); let z = self.cx.zext(b, w); acc = self.cx.add(acc, z); } acc }
            "ctlz" => {
                if let Some(c) = self.cx.cv(x) { let v = (c << (128 - w)).leading_zeros().min(w); self.cx.c(v as u128, w) }
                else { // fork on the bit length
                    let m = match self.model_of(st) { Some(m) => m, None => return err("ctlz without model") };
                    let v = self.cx.eval(x, &m).b(); let bl = 128 - v.leading_zeros();
                    let c = if bl == 0 { let z = self.cx.c(0, w); self.cx.eq(x, z) } else { let lo = self.cx.c(1u128 << (bl - 1), w); let a1 = self.cx.ule(lo, x); if bl < w { let hi = self.cx.c(1u128 << bl, w); let a2 = self.cx.ult(x, hi); self.cx.and(a1, a2) } else { a1 } };
                    if !self.fork_bool(st, c)? { return err("ctlz fork"); }
                    self.cx.c((w - bl) as u128, w)
                }
            }
            "cttz" => {
                if let Some(c) = self.cx.cv(x) { let v = if c == 0 { w } else { c.trailing_zeros() }; self.cx.c(v as u128, w) }
                else {
                    let m = match self.model_of(st) { Some(m) => m, None => return err("cttz without model") };
                    let v = self.cx.eval(x, &m).b(); let tz = if v == 0 { w } else { v.trailing_zeros() };
                    let c = if tz == w { let z = self.cx.c(0, w); self.cx.eq(x, z) } else { let low = self.cx.extract(x, 0, tz + 1); let k = self.cx.c(1u128 << tz, tz + 1); self.cx.eq(low, k) };
                    if !self.fork_bool(st, c)? { return err("cttz fork"); }
                    self.cx.c(tz as u128, w)
                }
            }
            _ => return err(format!("unsupported intrinsic llvm.{}", r)),
        };
        let v = self.vs(res);
        self.after_call(st, Some(v))
    }
}
