//! Buffers handed to iterators are released exactly once, and results are ordinary vectors.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a vector with spare capacity, a way of owning it (owning iterator, clone, map, scalars, stride, zip, adapter, taken back, unrolled, de-interleaved), scalars skipped and vectors taken before, an ending (collect, collect whole, visit, fill, drop) and possibly a closure that panics on the way; heap blocks in use are counted before and after, and results are pushed to, shrunk and boxed. Non-trivial when the vector is not empty and something was skipped, taken or produced.";
macro_rules! unit { ($m:ident, $e:ident, $k:ident) => { mod $m { use fvit::it_prelude::*; include!("c30.in"); pub fn add($k: &mut Check) {
    $k.add(concat!("ownership ", stringify!($e)), case::<$e>);
} } } }
unit!(m_u8, u8, k); unit!(m_i8, i8, k); unit!(m_u16, u16, k); unit!(m_i16, i16, k); unit!(m_u32, u32, k); unit!(m_i32, i32, k);
unit!(m_u64, u64, k); unit!(m_i64, i64, k); unit!(m_f32, f32, k); unit!(m_f64, f64, k);
fn main() { main_with(|| {
    let mut k = Check::new("C30", RULE, 3000, 150000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k);
    m_u64::add(&mut k); m_i64::add(&mut k); m_f32::add(&mut k); m_f64::add(&mut k);
    k
}) }
