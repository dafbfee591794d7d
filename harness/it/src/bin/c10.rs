//! Strided iterators visit every n-th element from each offset.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a collection (slice, owned vector iterator, or a stride of one), a run-time count of 1 to 12 or a fixed count, a length that need not be a multiple of the count, and an access path; non-trivial when there are at least two complete groups and the collection is not uniform.";
macro_rules! unit { ($m:ident, $k:ident, $body:block) => { mod $m { use fvit::it_prelude::*; include!("c10.in"); pub fn add($k: &mut Check) $body } } }
unit!(m_u8, k, { k.addw("run-time count u8", 2, run_time::<u8>); k.add("fixed count u8", fixed::<u8>); k.add("nested u8", nested::<u8>); k.add("records u8", records::<u8>); });
unit!(m_i8, k, { k.addw("run-time count i8", 2, run_time::<i8>); k.add("fixed count i8", fixed::<i8>); k.add("nested i8", nested::<i8>); k.add("records i8", records::<i8>); });
unit!(m_u16, k, { k.addw("run-time count u16", 2, run_time::<u16>); k.add("fixed count u16", fixed::<u16>); k.add("nested u16", nested::<u16>); k.add("records u16", records::<u16>); });
unit!(m_i16, k, { k.addw("run-time count i16", 2, run_time::<i16>); k.add("fixed count i16", fixed::<i16>); k.add("nested i16", nested::<i16>); k.add("records i16", records::<i16>); });
unit!(m_u32, k, { k.addw("run-time count u32", 2, run_time::<u32>); k.add("fixed count u32", fixed::<u32>); k.add("nested u32", nested::<u32>); k.add("records u32", records::<u32>); });
unit!(m_i32, k, { k.addw("run-time count i32", 2, run_time::<i32>); k.add("fixed count i32", fixed::<i32>); k.add("nested i32", nested::<i32>); k.add("records i32", records::<i32>); });
unit!(m_u64, k, { k.addw("run-time count u64", 2, run_time::<u64>); k.add("fixed count u64", fixed::<u64>); k.add("nested u64", nested::<u64>); k.add("records u64", records::<u64>); });
unit!(m_i64, k, { k.addw("run-time count i64", 2, run_time::<i64>); k.add("fixed count i64", fixed::<i64>); k.add("nested i64", nested::<i64>); k.add("records i64", records::<i64>); });
unit!(m_f32, k, { k.addw("run-time count f32", 2, run_time::<f32>); k.add("fixed count f32", fixed::<f32>); k.add("nested f32", nested::<f32>); k.add("records f32", records::<f32>); });
unit!(m_f64, k, { k.addw("run-time count f64", 2, run_time::<f64>); k.add("fixed count f64", fixed::<f64>); k.add("nested f64", nested::<f64>); k.add("records f64", records::<f64>); });
fn main() { main_with(|| {
    let mut k = Check::new("C10", RULE, 3000, 100000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k); m_u64::add(&mut k); m_i64::add(&mut k); m_f32::add(&mut k); m_f64::add(&mut k);
    k
}) }
