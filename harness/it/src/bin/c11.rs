//! De-interleaving zip splits pairs for every length.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a collection of pairs (slice, owned, stride, map or partly consumed), a default vector and an operation; non-trivial when there are at least two pairs and the collection is not uniform.";
macro_rules! unit { ($m:ident, $k:ident, $body:block) => { mod $m { use fvit::it_prelude::*; include!("c11.in"); pub fn add($k: &mut Check) $body } } }
unit!(m_u8, k, { k.add("pairs u8", split::<u8>); });
unit!(m_i8, k, { k.add("pairs i8", split::<i8>); });
unit!(m_u16, k, { k.add("pairs u16", split::<u16>); });
unit!(m_i16, k, { k.add("pairs i16", split::<i16>); });
unit!(m_u32, k, { k.add("pairs u32", split::<u32>); });
unit!(m_i32, k, { k.add("pairs i32", split::<i32>); });
fn main() { main_with(|| {
    let mut k = Check::new("C11", RULE, 5000, 250000);
    m_u8::add(&mut k); m_i8::add(&mut k); m_u16::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_i32::add(&mut k);
    k
}) }
