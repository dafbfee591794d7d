//! Closures run lazily, once per vector and in order; a panic in one leaves everything else intact.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source and either a history of cursor operations on a mapping iterator (plain, chained, zipped, strided, over a scalar iterator) whose closure records every call, or an operation whose closure panics at a drawn call; non-trivial when the closure runs at least twice on a collection that is not uniform, or panics.";
macro_rules! unit { ($m:ident, $e:ident, $k:ident) => { mod $m { use fvit::it_prelude::*; include!("c27.in"); pub fn add($k: &mut Check) {
    $k.addw(concat!("lazy ", stringify!($e)), 2, lazy::<$e>);
    $k.addw(concat!("panic ", stringify!($e)), 2, faulty::<$e>);
} } } }
unit!(m_u8, u8, k); unit!(m_i8, i8, k); unit!(m_u16, u16, k); unit!(m_i16, i16, k); unit!(m_u32, u32, k); unit!(m_i32, i32, k);
unit!(m_u64, u64, k); unit!(m_i64, i64, k); unit!(m_f32, f32, k); unit!(m_f64, f64, k);
fn main() { main_with(|| {
    let mut k = Check::new("C27", RULE, 3000, 150000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k);
    m_u64::add(&mut k); m_i64::add(&mut k); m_f32::add(&mut k); m_f64::add(&mut k);
    k
}) }
