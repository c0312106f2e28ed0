//! Stand-in for `tiny-keccak` used only in the symbolic build (see ../sha2).
#![no_std]
extern crate alloc;
use alloc::vec::Vec;

extern "C" { fn __sym_hash(kind: u32, ptr: *const u8, len: usize, out: *mut u8); }

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
#[derive(Clone)]
pub struct Keccak { bits: u32, buf: Vec<u8> }
impl Keccak {
    pub fn v224() -> Keccak { Keccak { bits: 224, buf: Vec::new() } }
    pub fn v256() -> Keccak { Keccak { bits: 256, buf: Vec::new() } }
    pub fn v384() -> Keccak { Keccak { bits: 384, buf: Vec::new() } }
    pub fn v512() -> Keccak { Keccak { bits: 512, buf: Vec::new() } }
}
impl Hasher for Keccak {
    fn update(&mut self, input: &[u8]) { self.buf.extend_from_slice(input) }
    fn finalize(self, output: &mut [u8]) {
        assert_eq!(output.len() * 8, self.bits as usize, "stand-in: output length must be the digest length");
        unsafe { __sym_hash(10000 + self.bits, self.buf.as_ptr(), self.buf.len(), output.as_mut_ptr()) }
    }
}
