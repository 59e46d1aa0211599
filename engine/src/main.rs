mod big; mod bv; mod exec; mod expr; mod lia; mod ll; mod solver;
use std::fmt::Write;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll"); let f = get("--fn").expect("--fn");
    let args: Vec<u64> = get("--args").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let tac = get("--tactics").unwrap_or("lia:10,bv:20,nia:20".into());
    let tactics = tac.split(',').map(|t| { let (k, s) = t.split_once(':').unwrap(); solver::Tactic { kind: k.into(), secs: s.parse().unwrap() } }).collect();
    let t0 = std::time::Instant::now();
    let m = match ll::Module::load(&ll) { Ok(m) => m, Err(e) => { eprintln!("cannot load {}: {}", ll, e); return 2; } };
    let mut sv = solver::Solver::new(tactics);
    sv.dump = get("--dump");
    let concrete = get("--concrete").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| big::Big::parse(x).unwrap()).collect());
    let o = exec::Opts { max_steps: get("--max-steps").map_or(3_000_000, |s| s.parse().unwrap()), max_paths: get("--max-paths").map_or(100_000, |s| s.parse().unwrap()), time: get("--time").map_or(300.0, |s| s.parse().unwrap()), max_cex: get("--max-cex").map_or(1, |s| s.parse().unwrap()), fork_select: a.iter().any(|x| x == "--fork-select"), keep_paths: get("--keep").map_or(4, |s| s.parse().unwrap()), trace: a.iter().any(|x| x == "--trace"), concrete, replace: get("--replace").unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(|x| { let (f, t) = x.split_once('=').unwrap(); match f.strip_prefix("rec:") { Some(f) => (f.to_string(), t.to_string(), true), None => (f.to_string(), t.to_string(), false) } }).collect() };
    let mut ex = exec::Exec::new(&m, sv, o);
    let r = ex.run(&f, &args);
    if let Err(e) = r { eprintln!("error: {}", e); ex.rep.inconclusive.push(e); }
    let rep = &ex.rep; let st = &ex.sv.st;
    let status = if !rep.cex.is_empty() { "cex" } else if !rep.inconclusive.is_empty() { "inconclusive" } else if rep.paths == 0 { "vacuous" } else { "pass" };
    let mut s = String::new();
    let list = |v: &Vec<big::Big>| format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "{{\"status\":{},\"fn\":{},\"args\":{:?},\"paths\":{},\"panics_ok\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_trivial\":{},\"terms\":{},", js(status), js(&f), args, rep.paths, rep.panics_ok, rep.pruned, rep.forks, rep.steps, rep.asserts, rep.asserts_trivial, ex.cx.n.len());
    let _ = write!(s, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"by_model\":{},\"by_cache\":{},\"by_guess\":{},\"refine\":{},\"by_simplify\":{},\"spurious\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},", st.queries, st.sat, st.unsat, st.unknown, st.by_model, st.by_cache, st.by_guess, st.refine, st.by_simplify, st.spurious, st.solver_s, st.max_s, t0.elapsed().as_secs_f64());
    let _ = write!(s, "\"tactics\":{{{}}},", st.per_tactic.iter().map(|(k, v)| format!("{}:[{},{:.3}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"cex\":[{}],", rep.cex.iter().map(|c| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{}}}", js(&c.kind), c.id, js(&c.msg), list(&c.inputs))).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"inconclusive\":[{}],", rep.inconclusive.iter().map(|c| js(c)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"assert_ids\":{:?},\"cover\":{{{}}},", rep.assert_ids.iter().collect::<Vec<_>>(), rep.cover.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"path_inputs\":[{}],", rep.path_inputs.iter().map(|v| list(v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"replaced\":[{}],", rep.replaced.iter().map(|c| js(c)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"functions\":[{}]}}", rep.funcs.iter().map(|c| js(c)).collect::<Vec<_>>().join(","));
    match get("--out") { Some(p) => { std::fs::write(p, s + "\n").unwrap(); } None => println!("{}", s) }
    match status { "pass" => 0, "cex" => 1, _ => 3 }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(101));
}
