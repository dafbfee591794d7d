//! No safe operation touches memory outside the caller's collections.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source and a history of safe operations with no regard for sense (advancing far past the end, taking tails with vectors left, buffers of any length, loads at any offset, mismatched zips, scalar iterators whose length lies); each operation may panic, but the process must survive, no byte outside the collections may change and nothing uninitialised may come out. Non-trivial when the history has at least two operations or an operation that was refused by a panic.";
macro_rules! unit { ($m:ident, $k:ident, $body:block) => { mod $m { use fvit::it_prelude::*; include!("c12.in"); pub fn add($k: &mut Check) $body } } }
unit!(m_u8, k, { k.addw("misuse u8", 2, misuse::<u8>); k.add("access u8", access::<u8>); k.add("zips u8", zips::<u8>); k.add("lying iterator u8", liar::<u8>); k.add("pairs u8", pairs::<u8>); k.add("mixed u8 u16", zips2::<u8, u16>); k.add("mixed u8 f64", zips2::<u8, f64>); });
unit!(m_i8, k, { k.addw("misuse i8", 2, misuse::<i8>); });
unit!(m_u16, k, { k.addw("misuse u16", 2, misuse::<u16>); });
unit!(m_i16, k, { k.addw("misuse i16", 2, misuse::<i16>); k.add("access i16", access::<i16>); k.add("zips i16", zips::<i16>); k.add("lying iterator i16", liar::<i16>); k.add("pairs i16", pairs::<i16>); });
unit!(m_u32, k, { k.addw("misuse u32", 2, misuse::<u32>); k.add("access u32", access::<u32>); k.add("zips u32", zips::<u32>); k.add("lying iterator u32", liar::<u32>); k.add("pairs u32", pairs::<u32>); k.add("mixed u32 u16", zips2::<u32, u16>); k.add("mixed u32 f32", zips2::<u32, f32>); });
unit!(m_i32, k, { k.addw("misuse i32", 2, misuse::<i32>); });
unit!(m_u64, k, { k.addw("misuse u64", 2, misuse::<u64>); k.add("access u64", access::<u64>); k.add("zips u64", zips::<u64>); k.add("lying iterator u64", liar::<u64>); });
unit!(m_i64, k, { k.addw("misuse i64", 2, misuse::<i64>); k.add("mixed i64 i8", zips2::<i64, i8>); });
unit!(m_f32, k, { k.addw("misuse f32", 2, misuse::<f32>); k.add("access f32", access::<f32>); k.add("zips f32", zips::<f32>); k.add("lying iterator f32", liar::<f32>); k.add("mixed f32 f64", zips2::<f32, f64>); });
unit!(m_f64, k, { k.addw("misuse f64", 2, misuse::<f64>); k.add("access f64", access::<f64>); k.add("zips f64", zips::<f64>); k.add("lying iterator f64", liar::<f64>); });
fn main() { main_with(|| {
    let mut k = Check::new("C12", RULE, 4000, 200000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k); m_u64::add(&mut k); m_i64::add(&mut k); m_f32::add(&mut k); m_f64::add(&mut k);
    k
}) }
