//! Stand-in for the `sha2` crate used only in the symbolic build: the digest of the collected
//! message is delegated to the engine's ideal-hash intrinsic `__sym_hash`.
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
pub use digest::{self, Digest};
use digest::{consts::{U28, U32, U48, U64}, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

extern "C" { fn __sym_hash(kind: u32, ptr: *const u8, len: usize, out: *mut u8); }

macro_rules! h {
    ($n:ident, $size:ty, $kind:expr) => {
        #[derive(Clone, Default)]
        pub struct $n { buf: Vec<u8> }
        impl core::fmt::Debug for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(stringify!($n)) }
        }
        impl HashMarker for $n {}
        impl OutputSizeUser for $n { type OutputSize = $size; }
        impl digest::core_api::BlockSizeUser for $n { type BlockSize = U64; }
        impl Update for $n { fn update(&mut self, data: &[u8]) { self.buf.extend_from_slice(data) } }
        impl Reset for $n { fn reset(&mut self) { self.buf.clear() } }
        impl FixedOutput for $n {
            fn finalize_into(self, out: &mut Output<Self>) {
                unsafe { __sym_hash($kind, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
            }
        }
        impl FixedOutputReset for $n {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                unsafe { __sym_hash($kind, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
                self.buf.clear();
            }
        }
    };
}
h!(Sha256, U32, 256);
h!(Sha224, U28, 224);
h!(Sha384, U48, 384);
h!(Sha512, U64, 512);
h!(Sha512_256, U32, 1256);
h!(Sha512_224, U28, 1224);
