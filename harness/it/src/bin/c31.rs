//! Iterators on different data used in several threads at once give what they give alone.
use fvit::it_prelude::*;

const RULE: &str = "A case draws 2 to 4 threads, each with a collection of its own and an operation (map and collect, in place, fill, zip, strides, owned, visit, fold, unroll, adapter, scalars; the same one in half of the cases; in half of the tasks the closures yield the processor); every thread repeats its operation 10 times at once with the others. Non-trivial when at least two threads work on more than one vector.";
macro_rules! unit { ($m:ident, $e:ident, $k:ident) => { mod $m { use fvit::it_prelude::*; include!("c31.in"); pub fn add($k: &mut Check) {
    $k.add(concat!("threads ", stringify!($e)), case::<$e>);
} } } }
unit!(m_u8, u8, k); unit!(m_i16, i16, k); unit!(m_u32, u32, k); unit!(m_f32, f32, k); unit!(m_i64, i64, k); unit!(m_f64, f64, k);
fn main() { main_with(|| {
    let mut k = Check::new("C31", RULE, 60, 4000);
    m_u8::add(&mut k); m_i16::add(&mut k); m_u32::add(&mut k); m_f32::add(&mut k); m_i64::add(&mut k); m_f64::add(&mut k);
    k
}) }
