//! Mapping in SIMD and collecting equals mapping the scalars one by one.
use fvit::it_prelude::*;

const RULE: &str = "A case draws an element type, a source (slice, mutable slice, owned vector, strides, maps, zips), a length, a placement against inaccessible memory, a default vector and a lane function; it is non-trivial when the collection has at least two elements that are not all equal.";
macro_rules! unit { ($m:ident, $k:ident, $body:block) => { mod $m { use fvit::it_prelude::*; include!("c01.in"); pub fn add($k: &mut Check) $body } } }
unit!(m_u8, k, { k.addw("collect u8", 3, collect::<u8>); add_retype::<u8, i8x16>(k); add_retype::<u8, i8x32>(k); add_retype::<u8, u16x16>(k); add_retype::<u8, u16x32>(k); add_retype::<u8, i32x16>(k); });
unit!(m_i8, k, { k.addw("collect i8", 3, collect::<i8>); add_retype::<i8, u8x16>(k); add_retype::<i8, u8x32>(k); add_retype::<i8, i16x16>(k); add_retype::<i8, i16x32>(k); });
unit!(m_u16, k, { k.addw("collect u16", 3, collect::<u16>); add_retype::<u16, i16x8>(k); add_retype::<u16, i16x16>(k); add_retype::<u16, u32x8>(k); add_retype::<u16, u32x16>(k); add_retype::<u16, u8x16>(k); add_retype::<u16, f32x8>(k); add_retype::<u16, f32x16>(k); });
unit!(m_i16, k, { k.addw("collect i16", 3, collect::<i16>); add_retype::<i16, u16x8>(k); add_retype::<i16, u16x16>(k); add_retype::<i16, i32x8>(k); add_retype::<i16, i32x16>(k); add_retype::<i16, f64x8>(k); });
unit!(m_u32, k, { k.addw("collect u32", 3, collect::<u32>); add_retype::<u32, i32x4>(k); add_retype::<u32, i32x8>(k); add_retype::<u32, f32x4>(k); add_retype::<u32, f32x8>(k); add_retype::<u32, u64x4>(k); add_retype::<u32, u64x8>(k); add_retype::<u32, u16x8>(k); add_retype::<u32, f64x4>(k); add_retype::<u32, f64x8>(k); });
unit!(m_i32, k, { k.addw("collect i32", 3, collect::<i32>); add_retype::<i32, u32x4>(k); add_retype::<i32, u32x8>(k); add_retype::<i32, f32x4>(k); add_retype::<i32, f32x8>(k); add_retype::<i32, f64x4>(k); add_retype::<i32, f64x8>(k); add_retype::<i32, i64x8>(k); });
unit!(m_u64, k, { k.addw("collect u64", 3, collect::<u64>); add_retype::<u64, i64x2>(k); add_retype::<u64, i64x4>(k); add_retype::<u64, f64x2>(k); add_retype::<u64, f64x4>(k); add_retype::<u64, u32x4>(k); });
unit!(m_i64, k, { k.addw("collect i64", 3, collect::<i64>); add_retype::<i64, u64x2>(k); add_retype::<i64, u64x4>(k); add_retype::<i64, f64x2>(k); add_retype::<i64, f64x4>(k); add_retype::<i64, f32x4>(k); });
unit!(m_f32, k, { k.addw("collect f32", 3, collect::<f32>); add_retype::<f32, u32x4>(k); add_retype::<f32, u32x8>(k); add_retype::<f32, f64x4>(k); add_retype::<f32, f64x8>(k); add_retype::<f32, i32x4>(k); add_retype::<f32, i32x8>(k); add_retype::<f32, u16x8>(k); add_retype::<f32, i64x4>(k); });
unit!(m_f64, k, { k.addw("collect f64", 3, collect::<f64>); add_retype::<f64, u64x2>(k); add_retype::<f64, u64x4>(k); add_retype::<f64, i64x2>(k); add_retype::<f64, i64x4>(k); add_retype::<f64, f32x4>(k); add_retype::<f64, i32x4>(k); });
fn main() { main_with(|| {
    let mut k = Check::new("C01", RULE, 1500, 60000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k); m_u64::add(&mut k); m_i64::add(&mut k); m_f32::add(&mut k); m_f64::add(&mut k);
    k
}) }
