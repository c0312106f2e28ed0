//! Intrinsics of the symbolic engine.  In the symbolic build they are interpreted by
//! /verif/engine; in the native replay build (/verif/hreal) they read the recorded inputs.
mod raw {
    extern "C-unwind" {
        pub fn __sym_byte() -> u8;
        pub fn __sym_range(lo: u8, hi: u8) -> u8;
        pub fn __sym_assume(c: u32);
        pub fn __sym_check(c: u32, p: *const u8, n: usize);
        pub fn __sym_obs(x: u64);
        pub fn __sym_reach(p: *const u8, n: usize);
        pub fn __sym_fork(x: u64) -> u64;
    }
}
/// an arbitrary byte
pub fn byte() -> u8 { unsafe { raw::__sym_byte() } }
/// an arbitrary byte in lo..=hi
pub fn range(lo: u8, hi: u8) -> u8 { unsafe { raw::__sym_range(lo, hi) } }
pub fn flag() -> bool { range(0, 1) == 1 }
/// enumerate the feasible values of a byte in lo..=hi (one path each)
pub fn pick(lo: u8, hi: u8) -> u8 { let b = range(lo, hi); fork(b as u64) as u8 }
pub fn assume(c: bool) { unsafe { raw::__sym_assume(c as u32) } }
pub fn check(c: bool, label: &'static str) { unsafe { raw::__sym_check(c as u32, label.as_ptr(), label.len()) } }
pub fn fail(label: &'static str) -> ! { check(false, label); unreachable!() }
pub fn obs(x: u64) { unsafe { raw::__sym_obs(x) } }
pub fn reach(label: &'static str) { unsafe { raw::__sym_reach(label.as_ptr(), label.len()) } }
pub fn fork(x: u64) -> u64 { unsafe { raw::__sym_fork(x) } }
pub trait Must<T> { fn must(self, label: &'static str) -> T; }
impl<T, E> Must<T> for Result<T, E> {
    fn must(self, label: &'static str) -> T { match self { Ok(t) => t, Err(_) => fail(label) } }
}
impl<T> Must<T> for Option<T> {
    fn must(self, label: &'static str) -> T { match self { Some(t) => t, None => fail(label) } }
}
/// one harness per line: name, scenario; the oracle is applied to the world the scenario returns
macro_rules! all {
    ($oracle:ident: $($n:ident $s:expr;)*) => { $(#[no_mangle] pub extern "C-unwind" fn $n() { let w = $s; $oracle(&w); })* };
}
/// all of a small list, about n of a long one, first and last included
pub fn few<T>(l: &[T], n: usize) -> impl Iterator<Item = &T> {
    let (len, step) = (l.len(), if l.len() > 100 { l.len() / n } else { 1 });
    l.iter().enumerate().filter(move |(i, _)| i % step == 0 || i + 1 == len).map(|(_, x)| x)
}
