//! replay NAME ARGS INPUTS  -- run one harness natively. exit 0 holds, 42/43/44 violated, 45 assumption not met.
use hh::sym::imp::{Big, stop, S};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let inputs: Vec<Big> = a[3].split(',').filter(|s| !s.is_empty()).map(|s| Big::parse(s).unwrap()).collect();
    let f = match hh::lookup(&a[1]) { Some(f) => f, None => { eprintln!("no harness {}", a[1]); std::process::exit(2) } };
    S.with(|s| s.borrow_mut().inputs = inputs);
    std::panic::set_hook(Box::new(|i| { eprintln!("{}", i); }));
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn({ let inp = S.with(|s| s.borrow().inputs.clone()); move || {
        S.with(|s| s.borrow_mut().inputs = inp);
        let r = std::panic::catch_unwind(|| f(&args));
        let (e, m) = S.with(|s| { let s = s.borrow(); (s.expect_panic, s.may_panic) });
        match (r.is_err(), e) { (true, true) => 0, (true, false) => if m { 0 } else { 43 }, (false, true) => 44, _ => 0 }
    } }).unwrap().join().unwrap();
    match r { 0 => stop(0, "holds"), 43 => stop(43, "unexpected panic"), _ => stop(44, "expected panic did not happen") }
}
