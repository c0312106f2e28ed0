//! Native replay of harness inputs against the real crates (real SHA-256/Keccak, real panics).
//! usage: hreal            reads lines "harness hexinputs"; prints one result line per input
//!        hreal HARNESS HEX   one run, human readable
use std::cell::{Cell, RefCell};
#[path = "../../hsrc/lib.rs"]
mod hsrc;
include!(concat!(env!("OUT_DIR"), "/table.rs"));

thread_local! {
    static IN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static POS: Cell<usize> = const { Cell::new(0) };
    static OBS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
struct Assume;
struct Check(String);
fn quit<T: 'static + Send>(t: T) -> ! { std::panic::resume_unwind(Box::new(t)) }
#[no_mangle]
pub extern "C-unwind" fn __sym_byte() -> u8 { POS.with(|p| { let i = p.get(); p.set(i + 1); IN.with(|v| v.borrow().get(i).copied()).unwrap_or(0) }) }
#[no_mangle]
pub extern "C-unwind" fn __sym_range(lo: u8, hi: u8) -> u8 {
    let b = POS.with(|p| { let i = p.get(); p.set(i + 1); IN.with(|v| v.borrow().get(i).copied()).unwrap_or(lo) });
    if b < lo || b > hi { quit(Assume) }
    b
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: u32) { if c == 0 { quit(Assume) } }
#[no_mangle]
pub extern "C-unwind" fn __sym_check(c: u32, p: *const u8, n: usize) {
    if c == 0 { quit(Check(String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned())) }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_obs(x: u64) { OBS.with(|o| o.borrow_mut().push(x)) }
#[no_mangle]
pub extern "C-unwind" fn __sym_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C-unwind" fn __sym_fork(x: u64) -> u64 { x }

fn run(name: &str, input: Vec<u8>) -> String {
    let Some(f) = TABLE.iter().find(|t| t.0 == name) else { return "nosuchharness".into() };
    let f = f.1;
    IN.with(|v| *v.borrow_mut() = input);
    POS.with(|p| p.set(0));
    OBS.with(|o| o.borrow_mut().clear());
    MSG.with(|m| m.borrow_mut().clear());
    let r = std::panic::catch_unwind(|| f());
    match r {
        Ok(()) => format!("done {}", OBS.with(|o| o.borrow().iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(","))),
        Err(e) => {
            if e.is::<Assume>() { "assume".into() }
            else if let Some(c) = e.downcast_ref::<Check>() { format!("check {}", c.0) }
            else { format!("panic {}", MSG.with(|m| m.borrow().clone()).replace('\n', " ")) }
        }
    }
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|x| *x.borrow_mut() = format!("{l}: {m}"));
    }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 2 { println!("{}", run(&a[1], unhex(a.get(2).map(|s| s.as_str()).unwrap_or("")))); return; }
    let mut line = String::new();
    use std::io::Write;
    while { line.clear(); std::io::stdin().read_line(&mut line).unwrap() > 0 } {
        let mut it = line.split_whitespace();
        let (n, h) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        println!("{}", run(&n, unhex(&h)));
        std::io::stdout().flush().unwrap();
    }
}
