//! Maps to narrower elements yield every piece of every element, in order.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source and target element type with a size ratio of 2, 4 or 8, a form (plain, owned, chained before or after, zipped), a length, a default vector, a number of vectors taken beforehand and an output operation; it is non-trivial when the collection has at least two elements and something is left to output.";
macro_rules! unit { ($m:ident, $k:ident, $body:block) => { mod $m { use fvit::it_prelude::*; include!("c02.in"); pub fn add($k: &mut Check) $body } } }
unit!(m_u16, k, { add_narrow::<u16, u8x16>(k); add_narrow::<u16, u8x32>(k); });
unit!(m_u8, k, { add_wide::<u8, u16x8>(k); add_wide::<u8, u16x16>(k); add_wide::<u8, i32x4>(k); add_wide::<u8, i32x8>(k); add_wide::<u8, u64x2>(k); add_wide::<u8, u64x4>(k); });
unit!(m_i16, k, { add_wide::<i16, u32x4>(k); add_wide::<i16, u32x8>(k); add_wide::<i16, f64x2>(k); add_wide::<i16, f64x4>(k); add_narrow::<i16, u8x16>(k); add_narrow::<i16, u8x32>(k); });
unit!(m_u32, k, { add_wide::<u32, i64x2>(k); add_wide::<u32, i64x4>(k); add_narrow::<u32, u8x16>(k); add_narrow::<u32, u8x32>(k); add_narrow::<u32, i16x8>(k); add_narrow::<u32, i16x16>(k); });
unit!(m_i32, k, { add_narrow::<i32, u16x8>(k); add_narrow::<i32, u16x16>(k); });
unit!(m_f32, k, { add_narrow::<f32, u8x16>(k); add_narrow::<f32, u8x32>(k); add_narrow::<f32, u16x8>(k); add_narrow::<f32, u16x16>(k); });
unit!(m_u64, k, { add_narrow::<u64, u8x16>(k); add_narrow::<u64, u8x32>(k); add_narrow::<u64, u16x8>(k); add_narrow::<u64, u16x16>(k); add_narrow::<u64, u32x4>(k); add_narrow::<u64, u32x8>(k); });
unit!(m_i64, k, { add_narrow::<i64, i32x4>(k); add_narrow::<i64, i32x8>(k); add_narrow::<i64, i8x16>(k); add_narrow::<i64, i8x32>(k); });
unit!(m_f64, k, { add_narrow::<f64, f32x4>(k); add_narrow::<f64, f32x8>(k); add_narrow::<f64, u32x4>(k); add_narrow::<f64, u32x8>(k); add_narrow::<f64, i16x8>(k); add_narrow::<f64, i16x16>(k); });
fn main() { main_with(|| {
    let mut k = Check::new("C02", RULE, 1500, 60000);
    m_u8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k); m_f32::add(&mut k); m_u64::add(&mut k); m_i64::add(&mut k); m_f64::add(&mut k);
    k
}) }
