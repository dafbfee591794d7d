#![allow(dead_code)]
#![cfg_attr(feature = "step", feature(llvm_asm))]
#[macro_use] pub mod pbt;
#[cfg(feature = "step")] pub mod step;
pub mod mem;
pub mod el;
#[macro_use] pub mod drv;
#[global_allocator]
static GLOBAL: pbt::GuardAlloc = pbt::GuardAlloc;

pub mod prelude {
    pub use crate::{all_vecs, ck, floats, ints};
    pub use crate::drv::*;
    pub use crate::el::*;
    pub use crate::mem::{guarded, Place};
    pub use crate::pbt::*;
    pub use faster::arch::current::vecs::*;
    pub use faster::vecs::{Packable, Packed, Pattern};
    pub use faster::*;
}
