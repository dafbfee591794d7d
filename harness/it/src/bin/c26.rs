//! Packing a scalar iterator yields its elements in order.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a scalar sequence from one of several exact-size iterators (owned, borrowed, range-mapped, reversed, chained), a default vector and an output operation, possibly after some vectors were taken; non-trivial when there are at least two different elements.";
macro_rules! unit { ($m:ident, $k:ident, $body:block) => { mod $m { use fvit::it_prelude::*; include!("c26.in"); pub fn add($k: &mut Check) $body } } }
unit!(m_u8, k, { k.add("adapter u8", adapter::<u8>); });
unit!(m_i8, k, { k.add("adapter i8", adapter::<i8>); });
unit!(m_u16, k, { k.add("adapter u16", adapter::<u16>); });
unit!(m_i16, k, { k.add("adapter i16", adapter::<i16>); });
unit!(m_u32, k, { k.add("adapter u32", adapter::<u32>); });
unit!(m_i32, k, { k.add("adapter i32", adapter::<i32>); });
unit!(m_u64, k, { k.add("adapter u64", adapter::<u64>); });
unit!(m_i64, k, { k.add("adapter i64", adapter::<i64>); });
unit!(m_f32, k, { k.add("adapter f32", adapter::<f32>); });
unit!(m_f64, k, { k.add("adapter f64", adapter::<f64>); });
fn main() { main_with(|| {
    let mut k = Check::new("C26", RULE, 5000, 300000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k); m_u64::add(&mut k); m_i64::add(&mut k); m_f32::add(&mut k); m_f64::add(&mut k);
    k
}) }
