//! Collections of a user's own type iterate like slices, and unchecked access stays in bounds.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a collection of a type defined here, which records every access and knows its bounds, a way to iterate it (plain, from a start position, strides, strides of strides and of iterators, maps, zips) and a history of operations; in the misuse variant the history is senseless. Non-trivial when the collection holds more than one vector and at least two operations moved the iterator.";
macro_rules! unit { ($m:ident, $e:ident, $k:ident) => { mod $m { use fvit::it_prelude::*; #[allow(dead_code)] type O = u32; include!("../build.in"); include!("c32.in"); pub fn add($k: &mut Check) {
    $k.add(concat!("own ", stringify!($e)), own::<$e>);
    $k.add(concat!("own misuse ", stringify!($e)), misuse::<$e>);
} } } }
unit!(m_u8, u8, k); unit!(m_i16, i16, k); unit!(m_u32, u32, k); unit!(m_f32, f32, k); unit!(m_i64, i64, k); unit!(m_f64, f64, k);
fn main() { main_with(|| {
    let mut k = Check::new("C32", RULE, 4000, 200000);
    m_u8::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_f32::add(&mut k); m_i64::add(&mut k); m_f64::add(&mut k);
    k
}) }
