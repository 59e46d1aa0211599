//! Query dispatch: model reuse, constraint slicing, and SMT processes (z3 / cvc5) with hard time limits.
use crate::big::Big;
use crate::bv::BvEmit;
use crate::expr::*;
use crate::lia::{Emit, Lia};
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

struct Proc { child: Child, stdin: ChildStdin, rx: Receiver<String> }
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

fn spawn(cmd: &str, args: &[&str]) -> Option<Proc> {
    let mut child = Command::new(cmd).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let stdin = child.stdin.take()?; let out = child.stdout.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => { if tx.send(l).is_err() { break; } } Err(_) => break } } });
    Some(Proc { child, stdin, rx })
}

#[derive(Clone, Debug)]
pub struct Tactic { pub kind: String, pub secs: f64 }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub by_cache: u64, pub by_model: u64, pub by_guess: u64, pub refine: u64, pub by_simplify: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub solver_s: f64, pub max_s: f64, pub spurious: u64, pub per_tactic: HashMap<String, (u64, f64)> }

pub struct Solver {
    pub lia: Lia, pub lias: Lia,
    procs: HashMap<String, Proc>,
    pub tactics: Vec<Tactic>,
    cache: HashMap<Vec<E>, Option<Option<Rc<Model>>>>, // None = unknown, Some(None) = unsat
    varsets: HashMap<E, Rc<BTreeSet<u32>>>,
    recent: Vec<Rc<Model>>,
    pub st: Stats,
    pub dump: Option<String>,
    seed: u64, last_spurious: Option<Rc<Model>>,
}

impl Solver {
    pub fn new(tactics: Vec<Tactic>) -> Solver { Solver { lia: Lia::new(), lias: { let mut l = Lia::new(); l.sparse = true; l }, procs: HashMap::new(), tactics, cache: HashMap::new(), varsets: HashMap::new(), recent: vec![], st: Stats::default(), dump: None, seed: 0x9E3779B97F4A7C15, last_spurious: None } }

    fn vars(&mut self, cx: &Ctx, e: E) -> Rc<BTreeSet<u32>> {
        if let Some(s) = self.varsets.get(&e) { return s.clone(); }
        let n = cx.nd(e).clone();
        let mut s = BTreeSet::new();
        match n.op { Op::V(i) | Op::IV(i) => { s.insert(i); } Op::UF(_) => { s.insert(1_000_000 + e); } _ => {} }
        let kids: Vec<E> = [n.a, n.b, n.c].iter().cloned().filter(|x| *x != NIL).collect();
        let r = if kids.len() == 1 && s.is_empty() { self.vars(cx, kids[0]) } else { for k in kids { let v = self.vars(cx, k); s.extend(v.iter().cloned()); } Rc::new(s) };
        self.varsets.insert(e, r.clone());
        r
    }

    fn talk(&mut self, key: &str, text: &str, secs: f64) -> Option<Vec<String>> {
        if !self.procs.contains_key(key) {
            let p = match key { "cvc5" => spawn("cvc5", &["--lang=smt2", "--incremental", "--produce-models"]), "z3old" => spawn("z3", &["-in", "-smt2"]), _ => spawn("z3-new", &["-in", "-smt2"]) }?;
            self.procs.insert(key.to_string(), p);
        }
        let p = self.procs.get_mut(key).unwrap();
        while p.rx.try_recv().is_ok() {}
        let full = format!("{}\n(echo \"<<end>>\")\n", text);
        if p.stdin.write_all(full.as_bytes()).is_err() || p.stdin.flush().is_err() { self.procs.remove(key); return None; }
        let deadline = Instant::now() + Duration::from_secs_f64(secs + 2.0);
        let mut out = vec![];
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) => { if l.contains("<<end>>") { return Some(out); } out.push(l); }
                Err(_) => { self.procs.remove(key); return None; }
            }
        }
    }

    fn parse_values(out: &str, vars: &[(E, String)], cx: &Ctx) -> Option<(HashMap<u32, Big>, HashMap<E, Big>)> {
        let mut vals = HashMap::new(); let mut ufs = HashMap::new();
        let toks: Vec<String> = out.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
        let mut by: HashMap<&str, Big> = HashMap::new();
        let names: HashMap<&str, E> = vars.iter().map(|(e, s)| (s.as_str(), *e)).collect();
        let mut i = 0;
        while i < toks.len() {
            if let Some((k, _)) = names.get_key_value(toks[i].as_str()) {
                let t = toks.get(i + 1)?;
                let v = if t == "(" {
                    if toks.get(i + 2)? == "-" { Big::parse(toks.get(i + 3)?)?.neg() } else if toks.get(i + 2)? == "_" { Big::parse(toks.get(i + 3)?.strip_prefix("bv")?)? } else { return None; }
                } else if let Some(h) = t.strip_prefix("#x") { let mut b = Big::zero(); for c in h.chars() { b = b.shl(4).add(&Big::from(c.to_digit(16)? as u128)); } b }
                else if let Some(h) = t.strip_prefix("#b") { let mut b = Big::zero(); for c in h.chars() { b = b.shl(1).add(&Big::from(c.to_digit(2)? as u128)); } b }
                else { Big::parse(t)? };
                by.insert(k, v); i += 2; continue;
            }
            i += 1;
        }
        for (e, nm) in vars {
            let v = by.get(nm.as_str())?.clone();
            match cx.nd(*e).op { Op::V(i) | Op::IV(i) => { vals.insert(i, v); } _ => { ufs.insert(*e, v); } }
        }
        Some((vals, ufs))
    }

    /// satisfiability of the conjunction `pc /\ extra`; `base` is a model of pc if known.
    pub fn check(&mut self, cx: &mut Ctx, pc: &[E], extra: E, base: Option<&Rc<Model>>) -> Res {
        match self.check1(cx, pc, extra, base) {
            // a model handed on must satisfy the whole path condition, since later slicing relies on it
            Res::Sat(m) if base.is_some() && !pc.iter().all(|e| cx.eval(*e, &m).b() == 1) => { if std::env::var("HSYM_DEBUG").is_ok() { eprintln!("merged model is no model"); } self.check1(cx, pc, extra, None) }
            r => r,
        }
    }
    fn check1(&mut self, cx: &mut Ctx, pc: &[E], extra: E, base: Option<&Rc<Model>>) -> Res {
        if let Some(c) = cx.cv(extra) { if c == 0 { self.st.by_simplify += 1; return Res::Unsat; } }
        // slice: conjuncts sharing variables (transitively) with extra
        let mut rel: Vec<E> = vec![]; let mut used = vec![false; pc.len()];
        let mut vs: BTreeSet<u32> = (*self.vars(cx, extra)).clone();
        loop {
            let mut changed = false;
            for (i, e) in pc.iter().enumerate() {
                if used[i] { continue; }
                let v = self.vars(cx, *e);
                if v.iter().any(|x| vs.contains(x)) { used[i] = true; rel.push(*e); vs.extend(v.iter().cloned()); changed = true; }
            }
            if !changed { break; }
        }
        if base.is_none() { rel = pc.to_vec(); }
        rel.push(extra);
        rel.sort_unstable(); rel.dedup();
        if let Some(r) = self.cache.get(&rel) {
            self.st.by_cache += 1;
            return match r { None => Res::Unknown, Some(None) => Res::Unsat, Some(Some(m)) => Res::Sat(Self::merge(m, base, &vs)) };
        }
        // try recent models
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            if rel.iter().all(|e| cx.eval(*e, &m).b() == 1) { self.st.by_model += 1; self.cache.insert(rel, Some(Some(m.clone()))); return Res::Sat(Self::merge(&m, base, &vs)); }
        }
        self.st.queries += 1;
        let t0 = Instant::now();
        let tactics = self.tactics.clone();
        let mut res: Option<Option<Rc<Model>>> = None;
        let mut starts: Vec<Rc<Model>> = vec![]; if let Some(b) = base { starts.push(b.clone()); }
        if let Some(m) = self.guess(cx, &rel, extra, &vs, &starts, 120, 0.03) { self.st.by_guess += 1; res = Some(Some(m)); }
        for t in &tactics {
            if res.is_some() { break; }
            let tt = Instant::now();
            let mut r = self.run(cx, &rel, t);
            if r.is_none() { if let Some(m) = self.last_spurious.take() { starts.insert(0, m); if let Some(m) = self.guess(cx, &rel, extra, &vs, &starts, 3000, 0.3) { self.st.by_guess += 1; r = Some(Some(m)); } } }
            let dt = tt.elapsed().as_secs_f64();
            let en = self.st.per_tactic.entry(t.kind.clone()).or_insert((0, 0.0)); en.1 += dt;
            match r { Some(x) => { en.0 += 1; res = Some(x); break; } None => {} }
        }
        let dt = t0.elapsed().as_secs_f64(); self.st.solver_s += dt; if dt > self.st.max_s { self.st.max_s = dt; }
        self.cache.insert(rel, res.clone());
        match res {
            None => { self.st.unknown += 1; Res::Unknown }
            Some(None) => { self.st.unsat += 1; Res::Unsat }
            Some(Some(m)) => { self.st.sat += 1; self.recent.push(m.clone()); if self.recent.len() > 24 { self.recent.remove(0); } Res::Sat(Self::merge(&m, base, &vs)) }
        }
    }
    /// cheap search for a model near the given ones; every candidate is evaluated concretely
    fn guess(&mut self, cx: &Ctx, rel: &[E], extra: E, vs: &BTreeSet<u32>, starts: &[Rc<Model>], tries: usize, secs: f64) -> Option<Rc<Model>> {
        let vars: Vec<u32> = vs.iter().cloned().filter(|v| *v < 1_000_000).collect();
        if vars.is_empty() { return None; }
        let mut ev: Vec<u32> = self.vars(cx, extra).iter().cloned().filter(|v| *v < 1_000_000).collect();
        if ev.is_empty() { ev = vars.clone(); }
        let t0 = Instant::now();
        let empty = Rc::new(Model::new(HashMap::new()));
        for k in 0..tries {
            if k & 7 == 7 && t0.elapsed().as_secs_f64() > secs { break; }
            let b = if starts.is_empty() { empty.clone() } else { starts[k % starts.len()].clone() };
            let mut vals = b.vals.clone();
            let all = k % 5 == 4 || starts.is_empty();
            let picks: Vec<u32> = if all { vars.clone() } else { let n = 1 + (self.rnd() % 3) as usize; (0..n).map(|_| ev[(self.rnd() % ev.len() as u64) as usize]).collect() };
            for v in picks {
                let w = cx.vars[v as usize].w; let r = self.rnd();
                let cur = vals.get(&v).cloned().unwrap_or(Big::zero());
                let nv: Big = if w == 0 { match r % 8 { 0 => Big::zero(), 1 => Big::one(), 2 => Big::from_i128(-1), 3 => cur.add(&Big::one()), 4 => cur.sub(&Big::one()), 5 => cur.neg(), 6 => Big::from_i128((self.rnd() % 21) as i128 - 10), _ => Big::from_i128(self.rnd() as i64 as i128) } }
                else {
                    let m = mask(w); let c = cur.mod_pow2(w as usize);
                    let x = match r % 12 { 0 => 0, 1 => 1, 2 => 2, 3 => m, 4 => m - 1, 5 => 1u128 << (w - 1), 6 => c.wrapping_add(1), 7 => c.wrapping_sub(1), 8 => c ^ (1u128 << (self.rnd() % w as u64)), 9 => (1u128 << (self.rnd() % w as u64)).wrapping_sub(self.rnd() as u128 & 1), _ => { let a = self.rnd() as u128; let b = self.rnd() as u128; ((a << 64) | b) >> (self.rnd() % w as u64) } };
                    Big::from(x & m)
                };
                vals.insert(v, nv);
            }
            let mut m = Model::new(vals); m.uf = b.uf.clone(); let m = Rc::new(m);
            if cx.eval(extra, &m).b() == 1 && rel.iter().all(|e| cx.eval(*e, &m).b() == 1) { return Some(m); }
        }
        None
    }
    fn rnd(&mut self) -> u64 { let mut x = self.seed; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.seed = x; x.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    fn merge(m: &Rc<Model>, base: Option<&Rc<Model>>, vs: &BTreeSet<u32>) -> Rc<Model> {
        match base {
            None => m.clone(),
            Some(b) => {
                let mut vals = b.vals.clone(); let mut uf = b.uf.clone();
                // a variable the model leaves out counts as zero in its evaluation
                for k in vs { if *k < 1_000_000 { vals.insert(*k, m.vals.get(k).cloned().unwrap_or(Big::zero())); } else { let e = (*k - 1_000_000) as E; uf.insert(e, m.uf.get(&e).cloned().unwrap_or(Big::zero())); } }
                let mut r = Model::new(vals); r.uf = uf; Rc::new(r)
            }
        }
    }
    fn run(&mut self, cx: &mut Ctx, rel: &[E], t: &Tactic) -> Option<Option<Rc<Model>>> {
        let (text, vars, logic, proc_); let mut prods = vec![];
        match t.kind.as_str() {
            "lia" | "nia" | "lias" | "lias-cvc5" | "nias" | "lia-cvc5" | "nia-cvc5" | "lia-old" => {
                let nl = t.kind.starts_with("nia");
                let mut em = Emit::new(if t.kind.contains("as") { &mut self.lias } else { &mut self.lia }, cx, nl);
                for e in rel { if !em.assert_bool(*e) { self.st.by_simplify += 1; return Some(None); } }
                let (s, v, hm, pr) = em.finish(); if !nl { prods = pr; }
                if nl && !hm { /* same as lia */ }
                text = s; vars = v; logic = if nl { "QF_NIA" } else { "QF_LIA" };
                proc_ = if t.kind.ends_with("cvc5") { "cvc5" } else if t.kind.ends_with("old") { "z3old" } else { "z3" };
            }
            "bv" | "bv-cvc5" | "bvint-cvc5" | "bv-old" => {
                let mut em = BvEmit::new(cx);
                for e in rel { if em.assert_bool(*e).is_err() { return None; } }
                text = em.out; vars = em.vars; logic = "QF_BV"; proc_ = if t.kind == "bv" { "z3" } else if t.kind == "bv-old" { "z3old" } else { "cvc5" };
            }
            _ => return None,
        }
        let mut q = String::new();
        if proc_ == "cvc5" { q += "(reset)\n(set-option :produce-models true)\n"; q += &format!("(set-option :tlimit-per {})\n", (t.secs * 1000.0) as u64); if t.kind == "bvint-cvc5" { q += "(set-option :solve-bv-as-int sum)\n"; } q += &format!("(set-logic {})\n", if t.kind == "bvint-cvc5" { "ALL" } else { logic }); }
        else { q += "(reset)\n(set-option :produce-models true)\n"; q += &format!("(set-option :timeout {})\n(set-logic {})\n", (t.secs * 1000.0) as u64, logic); }
        q += &text; q += "(check-sat)\n";
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, self.st.queries, t.kind), &q); }
        let t0 = Instant::now(); let mut first = true;
        let mut spurious = None;
        let names: Vec<String> = { let mut s: BTreeSet<String> = BTreeSet::new(); for (a, b, c) in &prods { s.insert(a.clone()); s.insert(b.clone()); s.insert(c.clone()); } s.into_iter().collect() };
        for _round in 0..60 {
            let left = t.secs - t0.elapsed().as_secs_f64();
            if !first && left < 0.05 { break; }
            let out = match self.talk(proc_, &q, left.max(0.1)) { Some(o) => o, None => break };
            first = false;
            if out.iter().any(|l| l.contains("(error")) { if std::env::var("HSYM_DEBUG").is_ok() { eprintln!("solver error: {:?}", out); let _ = std::fs::write("/tmp/hsym_err.smt2", &q); } break; }
            match out.iter().map(|s| s.trim()).find(|s| *s == "sat" || *s == "unsat" || *s == "unknown" || *s == "timeout") {
                Some("unsat") => return Some(None),
                Some("sat") => {}
                _ => break,
            }
            let mut vals = HashMap::new(); let mut ufs = HashMap::new();
            let mut raw: HashMap<String, Big> = HashMap::new();
            if !vars.is_empty() || !names.is_empty() {
                let mut g = String::from("(get-value ("); for (_, v) in &vars { g += v; g.push(' '); } for n in &names { g += n; g.push(' '); } g += "))";
                let o = match self.talk(proc_, &g, 5.0) { Some(o) => o.join(" "), None => break };
                match Self::parse_values(&o, &vars, cx) { Some((a, b)) => { vals = a; ufs = b; } None => break }
                if !names.is_empty() { raw = Self::parse_raw(&o); }
            }
            let mut m = Model::new(vals); m.uf = ufs; let m = Rc::new(m);
            if rel.iter().all(|e| cx.eval(*e, &m).b() == 1) { return Some(Some(m)); }
            self.st.spurious += 1; spurious = Some(m);
            // refine: products whose abstract value is wrong get lemmas at the model's point
            let mut add = String::new(); let mut cnt = 0;
            for (n, l, r) in &prods {
                if let (Some(v), Some(a), Some(b)) = (raw.get(n), raw.get(l), raw.get(r)) {
                    if *v == a.mul(b) { continue; }
                    cnt += 1; if cnt > 12 { break; }
                    let (na, nb, ab) = (Emit::num(a), Emit::num(b), Emit::num(&a.mul(b)));
                    add += &format!("(assert (=> (= {l} {na}) (= {n} (* {na} {r}))))\n(assert (=> (= {r} {nb}) (= {n} (* {nb} {l}))))\n");
                    if *v < a.mul(b) { add += &format!("(assert (=> (or (and (<= {l} {na}) (<= {r} {nb})) (and (>= {l} {na}) (>= {r} {nb}))) (>= {n} (- (+ (* {nb} {l}) (* {na} {r})) {ab}))))\n"); }
                    else { add += &format!("(assert (=> (or (and (<= {l} {na}) (>= {r} {nb})) (and (>= {l} {na}) (<= {r} {nb}))) (<= {n} (- (+ (* {nb} {l}) (* {na} {r})) {ab}))))\n"); }
                }
            }
            if cnt == 0 || proc_ == "cvc5" { break; }
            self.st.refine += 1;
            q = format!("{}(set-option :timeout {})\n(check-sat)\n", add, (left.max(0.1) * 1000.0) as u64);
        }
        self.last_spurious = spurious;
        None
    }
    fn parse_raw(out: &str) -> HashMap<String, Big> {
        let toks: Vec<String> = out.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
        let mut m = HashMap::new(); let mut i = 0;
        while i + 1 < toks.len() {
            if toks[i].starts_with('x') || toks[i].starts_with('m') {
                if toks[i + 1] == "(" { if let Some(v) = toks.get(i + 3).and_then(|t| Big::parse(t)) { m.insert(toks[i].clone(), v.neg()); } }
                else if let Some(v) = Big::parse(&toks[i + 1]) { m.insert(toks[i].clone(), v); }
            }
            i += 1;
        }
        m
    }
}
