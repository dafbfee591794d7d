//! The same pure program gives the same result on every build.
use fvit::it_prelude::*;

const RULE: &str = "A case draws a program: a collection, a chain of 1 to 6 lane-wise vector operations (arithmetic, saturating arithmetic, minimum, maximum, absolute value, bit operations, byte swaps, rounding, square roots, equality masks, conversions there and back, pairwise horizontal operations), a source form (plain, zipped, strided, de-interleaved, in place, unrolled) and an output (collect, fill, exact reductions); its result is compared with scalar evaluation, and its digest across builds. The `operations` variants draw a chain of up to 6 operations on two vectors of one fixed type (every trait with an exact result: arithmetic, saturating, horizontal, merges and patterns, byte order, views, masks, rounding, widening, narrowing, de-interleaving), compare each step and some reductions of the end with a scalar model, and digest them. Non-trivial when the collection has at least two different elements.";

/// Element types with a set of vector operations and the scalar functions they must equal.
trait Prog: El { const N: usize; fn v(op: usize, a: Vof<Self>, b: Vof<Self>) -> Vof<Self>; fn s(op: usize, a: Self, b: Self) -> Self; fn name(op: usize) -> &'static str;
    /// Keep operands where every build must agree.
    fn tame(x: Self) -> Self { x }
    fn pairs(a: Vof<Self>, b: Vof<Self>, op: usize) -> Vof<Self>; fn spairs(x: Self, y: Self, op: usize) -> Self;
    fn reduce(d: &[Self], def: usize) -> u64; fn sreduce(d: &[Self], def: usize) -> u64; }
macro_rules! prog {
    ($t:ident, tame $tame:expr, pairs [$(($pn:tt, $pv:expr, $ps:expr)),*], reduce [$(($rn:tt, $rv:expr, $rs:expr)),*], $(($n:tt, $name:expr, $v:expr, $s:expr)),* $(,)?) => {
        impl Prog for $t {
            const N: usize = [$($n),*].len();
            fn v(op: usize, a: Vof<$t>, b: Vof<$t>) -> Vof<$t> { match op { $($n => { let f: fn(Vof<$t>, Vof<$t>) -> Vof<$t> = $v; f(a, b) })* _ => a } }
            fn s(op: usize, a: $t, b: $t) -> $t { match op { $($n => { let f: fn($t, $t) -> $t = $s; f(a, b) })* _ => a } }
            fn name(op: usize) -> &'static str { [$($name),*][op] }
            fn tame(x: $t) -> $t { let f: fn($t) -> $t = $tame; f(x) }
            fn pairs(a: Vof<$t>, b: Vof<$t>, op: usize) -> Vof<$t> { let _ = (&a, &b); match op { $($pn => { let f: fn(Vof<$t>, Vof<$t>) -> Vof<$t> = $pv; f(a, b) })* _ => a } }
            fn spairs(x: $t, y: $t, op: usize) -> $t { let _ = y; match op { $($pn => { let f: fn($t, $t) -> $t = $ps; f(x, y) })* _ => x } }
            fn reduce(d: &[$t], op: usize) -> u64 { match op { $($rn => { let f: fn(&[$t]) -> u64 = $rv; f(d) })* _ => 0 } }
            fn sreduce(d: &[$t], op: usize) -> u64 { match op { $($rn => { let f: fn(&[$t]) -> u64 = $rs; f(d) })* _ => 0 } }
        }
    };
}
type V<T> = Vof<T>;
fn m8(x: i128) -> u64 { x as u64 }
prog!(u8, tame |x| x,
    pairs [(0, |a, b| a.saturating_hadd(b), |x, y| x.saturating_add(y)), (1, |a, b| a.saturating_hsub(b), |x, y| x.saturating_sub(y))],
    reduce [(0, |d| { let mut t = 0u64; d.simd_iter(u8s(0)).simd_do_each(|v| t += v.sum_upcast() as u64); t }, |d| d.iter().map(|x| *x as u64).sum()),
            (1, |d| { let mut t = 0u64; d.simd_iter(u8s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (2, |d| d.simd_iter(u8s(0)).simd_reduce(u8s(0), |a, v| Cmp::max(&a, v)).scalar_reduce(0u64, |a, x| a.max(x as u64)), |d| d.iter().map(|x| *x as u64).max().unwrap_or(0))],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "saturating_add", |a, b| a.saturating_add(b), |a, b| a.saturating_add(b)),
    (3, "saturating_sub", |a, b| a.saturating_sub(b), |a, b| a.saturating_sub(b)), (4, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (5, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (6, "xor", |a, b| a ^ b, |a, b| a ^ b), (7, "and", |a, b| a & b, |a, b| a & b), (8, "eq_mask", |a, b| a.eq_mask(b), |a, b| if a == b { 255 } else { 0 }), (9, "not", |a, _| !a, |a, _| !a),
    (10, "through u16", |a, b| { let (x, y) = a.upcast(); let (p, q) = b.upcast(); Downcast::<V<u8>>::saturating_downcast(x + p, y + q) }, |a, b| (a as u16 + b as u16).min(255) as u8),
    (11, "mul", |a, b| a * b, |a, b| a.wrapping_mul(b)), (12, "through i8", |a, b| a.be_i8s().saturating_add(b.be_i8s()).be_u8s(), |a, b| (a as i8).saturating_add(b as i8) as u8),
    (13, "ne_mask", |a, b| a.ne_mask(b), |a, b| if a == b { 0 } else { 255 }), (14, "shr", |a, _| a >> 3u32, |a, _| a >> 3));
prog!(i16, tame |x| x,
    pairs [(0, |a, b| a.saturating_hadd(b), |x, y| x.saturating_add(y)), (1, |a, b| a.saturating_hsub(b), |x, y| x.saturating_sub(y))],
    reduce [(0, |d| { let mut t = 0i64; d.simd_iter(i16s(0)).simd_do_each(|v| t += v.sum_upcast()); t as u64 }, |d| d.iter().map(|x| *x as i64).sum::<i64>() as u64),
            (1, |d| { let mut t = 0u64; d.simd_iter(i16s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (2, |d| d.simd_iter(i16s(32767)).simd_reduce(i16s(32767), |a, v| Cmp::min(&a, v)).scalar_reduce(32767i64, |a, x| a.min(x as i64)) as u64, |d| d.iter().map(|x| *x as i64).min().unwrap_or(32767) as u64)],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "saturating_add", |a, b| a.saturating_add(b), |a, b| a.saturating_add(b)),
    (3, "saturating_sub", |a, b| a.saturating_sub(b), |a, b| a.saturating_sub(b)), (4, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (5, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (6, "xor", |a, b| a ^ b, |a, b| a ^ b), (7, "abs", |a, _| Abs::abs(&a).be_i16s(), |a, _| a.wrapping_abs()), (8, "eq_mask", |a, b| a.eq_mask(b).be_i16s(), |a, b| if a == b { -1 } else { 0 }),
    (9, "swap_bytes", |a, _| Reendianize::swap_bytes(&a), |a, _| a.swap_bytes()), (10, "through i32", |a, b| { let (x, y) = a.upcast(); let (p, q) = b.upcast(); Downcast::<V<i16>>::saturating_downcast(x * p, y * q) }, |a, b| (a as i32 * b as i32).max(-32768).min(32767) as i16),
    (11, "to and from big endian", |a, b| Reendianize::from_be(&(Reendianize::to_be(&a) ^ Reendianize::to_be(&b))), |a, b| a ^ b), (12, "mul", |a, b| a * b, |a, b| a.wrapping_mul(b)), (13, "through bytes", |a, b| (a.be_u8s().saturating_sub(b.be_u8s())).be_i16s(), |a, b| { let (x, y) = (a.to_le_bytes(), b.to_le_bytes()); i16::from_le_bytes([x[0].saturating_sub(y[0]), x[1].saturating_sub(y[1])]) }));
prog!(i8, tame |x| x,
    pairs [],
    reduce [(0, |d| { let mut t = 0i64; d.simd_iter(i8s(0)).simd_do_each(|v| t += v.sum_upcast()); t as u64 }, |d| d.iter().map(|x| *x as i64).sum::<i64>() as u64),
            (1, |d| { let mut t = 0u64; d.simd_iter(i8s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (2, |d| d.simd_iter(i8s(127)).simd_reduce(i8s(127), |a, v| Cmp::min(&a, v)).scalar_reduce(127i64, |a, x| a.min(x as i64)) as u64, |d| d.iter().map(|x| *x as i64).min().unwrap_or(127) as u64)],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "saturating_add", |a, b| a.saturating_add(b), |a, b| a.saturating_add(b)),
    (3, "saturating_sub", |a, b| a.saturating_sub(b), |a, b| a.saturating_sub(b)), (4, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (5, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (6, "xor", |a, b| a ^ b, |a, b| a ^ b), (7, "abs", |a, _| Abs::abs(&a).be_i8s(), |a, _| a.wrapping_abs()), (8, "eq_mask", |a, b| a.eq_mask(b).be_i8s(), |a, b| if a == b { -1 } else { 0 }),
    (9, "through i16", |a, b| { let (x, y) = a.upcast(); let (p, q) = b.upcast(); Downcast::<V<i8>>::saturating_downcast(x * p, y * q) }, |a, b| (a as i16 * b as i16).max(-128).min(127) as i8), (10, "mul", |a, b| a * b, |a, b| a.wrapping_mul(b)),
    (11, "ne_mask", |a, b| a.ne_mask(b).be_i8s(), |a, b| if a == b { 0 } else { -1 }), (12, "through u8", |a, b| a.be_u8s().saturating_sub(b.be_u8s()).be_i8s(), |a, b| (a as u8).saturating_sub(b as u8) as i8));
prog!(u16, tame |x| x,
    pairs [],
    reduce [(0, |d| { let mut t = 0u64; d.simd_iter(u16s(0)).simd_do_each(|v| t += v.sum_upcast() as u64); t }, |d| d.iter().map(|x| *x as u64).sum()),
            (1, |d| { let mut t = 0u64; d.simd_iter(u16s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (2, |d| d.simd_iter(u16s(0)).simd_reduce(u16s(0), |a, v| Cmp::max(&a, v)).scalar_reduce(0u64, |a, x| a.max(x as u64)), |d| d.iter().map(|x| *x as u64).max().unwrap_or(0))],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "saturating_add", |a, b| a.saturating_add(b), |a, b| a.saturating_add(b)),
    (3, "saturating_sub", |a, b| a.saturating_sub(b), |a, b| a.saturating_sub(b)), (4, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (5, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (6, "xor", |a, b| a ^ b, |a, b| a ^ b), (7, "eq_mask", |a, b| a.eq_mask(b), |a, b| if a == b { !0 } else { 0 }), (8, "swap_bytes", |a, _| Reendianize::swap_bytes(&a), |a, _| a.swap_bytes()),
    (9, "through u32", |a, b| { let (x, y) = a.upcast(); let (p, q) = b.upcast(); Downcast::<V<u16>>::saturating_downcast(x * p, y * q) }, |a, b| (a as u32 * b as u32).min(65535) as u16), (10, "mul", |a, b| a * b, |a, b| a.wrapping_mul(b)),
    (11, "through bytes", |a, b| a.be_i8s().saturating_add(b.be_i8s()).be_u16s(), |a, b| { let (x, y) = (a.to_le_bytes(), b.to_le_bytes()); u16::from_le_bytes([(x[0] as i8).saturating_add(y[0] as i8) as u8, (x[1] as i8).saturating_add(y[1] as i8) as u8]) }), (12, "shr", |a, _| a >> 5u32, |a, _| a >> 5));
prog!(i64, tame |x| x,
    pairs [],
    reduce [(0, |d| { let mut t = 0u64; d.simd_iter(i64s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (1, |d| d.simd_iter(i64s(0)).simd_reduce(i64s(0), |a, v| a ^ v).scalar_reduce(0, |a, x| a ^ x) as u64, |d| d.iter().fold(0, |a, x| a ^ x) as u64)],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "xor", |a, b| a ^ b, |a, b| a ^ b), (3, "or", |a, b| a | b, |a, b| a | b), (4, "swap_bytes", |a, _| Reendianize::swap_bytes(&a), |a, _| a.swap_bytes()),
    (5, "eq_mask", |a, b| a.eq_mask(b).be_i64s(), |a, b| if a == b { -1 } else { 0 }), (6, "through halfwords", |a, b| a.be_i16s().saturating_add(b.be_i16s()).be_i64s(), |a, b| { let (x, y) = (a.to_le_bytes(), b.to_le_bytes()); let mut r = [0; 8]; for i in 0..4 { let t = i16::from_le_bytes([x[2 * i], x[2 * i + 1]]).saturating_add(i16::from_le_bytes([y[2 * i], y[2 * i + 1]])).to_le_bytes(); r[2 * i] = t[0]; r[2 * i + 1] = t[1]; } i64::from_le_bytes(r) }),
    (7, "to and from big endian", |a, b| Reendianize::from_be(&(Reendianize::to_be(&a) ^ Reendianize::to_be(&b))), |a, b| a ^ b));
prog!(u32, tame |x| x,
    pairs [],
    reduce [(0, |d| { let mut t = 0u64; d.simd_iter(u32s(0)).simd_do_each(|v| t += v.sum_upcast() as u64); t }, |d| d.iter().map(|x| *x as u64).sum()),
            (1, |d| { let mut t = 0u64; d.simd_iter(u32s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (2, |d| d.simd_iter(u32s(0)).simd_reduce(u32s(0), |a, v| a + v).scalar_reduce(0u32, |a, x| a.wrapping_add(x)) as u64, |d| d.iter().fold(0u32, |a, x| a.wrapping_add(*x)) as u64)],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (3, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (4, "mul", |a, b| a * b, |a, b| a.wrapping_mul(b)), (5, "xor", |a, b| a ^ b, |a, b| a ^ b), (6, "swap_bytes", |a, _| Reendianize::swap_bytes(&a), |a, _| a.swap_bytes()), (7, "eq_mask", |a, b| a.eq_mask(b), |a, b| if a == b { !0 } else { 0 }),
    (8, "through u64", |a, b| { let (x, y) = a.upcast(); let (p, q) = b.upcast(); Downcast::<V<u32>>::saturating_downcast(x * p, y * q) }, |a, b| (a as u64 * b as u64).min(0xffff_ffff) as u32),
    (9, "through halfwords", |a, b| a.be_u16s().saturating_add(b.be_u16s()).be_u32s(), |a, b| ((a & 0xffff) + (b & 0xffff)).min(0xffff) | (((a >> 16) + (b >> 16)).min(0xffff) << 16)), (10, "shr", |a, _| a >> 7u32, |a, _| a >> 7));
prog!(i32, tame |x| x,
    pairs [],
    reduce [(0, |d| { let mut t = 0i64; d.simd_iter(i32s(0)).simd_do_each(|v| t += v.sum_upcast()); t as u64 }, |d| d.iter().map(|x| *x as i64).sum::<i64>() as u64),
            (1, |d| { let mut t = 0u64; d.simd_iter(i32s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum())],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (3, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (4, "mul", |a, b| a * b, |a, b| a.wrapping_mul(b)), (5, "abs", |a, _| Abs::abs(&a).be_i32s(), |a, _| a.wrapping_abs()), (6, "swap_bytes", |a, _| Reendianize::swap_bytes(&a), |a, _| a.swap_bytes()), (7, "ne_mask", |a, b| a.ne_mask(b).be_i32s(), |a, b| if a == b { 0 } else { -1 }),
    (8, "through i64", |a, b| { let (x, y) = Upcast::<V<i64>>::upcast(a); let (p, q) = Upcast::<V<i64>>::upcast(b); let r: V<i32> = Downcast::<V<i32>>::saturating_downcast(x + p, y + q); r }, |a, b| a.saturating_add(b)), (9, "shr", |a, _| a >> 5u32, |a, _| a >> 5),
    (10, "through halfwords", |a, b| a.be_i16s().saturating_sub(b.be_i16s()).be_i32s(), |a, b| { let l = (a as i16).saturating_sub(b as i16) as u16 as u32; let h = ((a >> 16) as i16).saturating_sub((b >> 16) as i16) as u16 as u32; (l | (h << 16)) as i32 }));
prog!(u64, tame |x| x,
    pairs [],
    reduce [(0, |d| { let mut t = 0u64; d.simd_iter(u64s(0)).simd_do_each(|v| t += Popcnt::count_ones(&v) as u64); t }, |d| d.iter().map(|x| x.count_ones() as u64).sum()),
            (1, |d| d.simd_iter(u64s(0)).simd_reduce(u64s(0), |a, v| a ^ v).scalar_reduce(0, |a, x| a ^ x), |d| d.iter().fold(0, |a, x| a ^ x))],
    (0, "add", |a, b| a + b, |a, b| a.wrapping_add(b)), (1, "sub", |a, b| a - b, |a, b| a.wrapping_sub(b)), (2, "xor", |a, b| a ^ b, |a, b| a ^ b), (3, "or", |a, b| a | b, |a, b| a | b), (4, "swap_bytes", |a, _| Reendianize::swap_bytes(&a), |a, _| a.swap_bytes()),
    (5, "eq_mask", |a, b| a.eq_mask(b), |a, b| if a == b { !0 } else { 0 }), (6, "through bytes", |a, b| a.be_u8s().saturating_add(b.be_u8s()).be_u64s(), |a, b| { let (x, y) = (a.to_le_bytes(), b.to_le_bytes()); let mut r = [0; 8]; for i in 0..8 { r[i] = x[i].saturating_add(y[i]); } u64::from_le_bytes(r) }),
    (7, "shr", |a, _| a >> 11u32, |a, _| a >> 11));
fn tame32(x: f32) -> f32 { if x == x && x.abs() < 1e6 && (x * 4.0).fract() == 0.0 { x } else { ((x.to_bits() % 2001) as f32 - 1000.0) * 0.25 } }
fn tame64(x: f64) -> f64 { if x == x && x.abs() < 1e6 && (x * 4.0).fract() == 0.0 { x } else { ((x.to_bits() % 2001) as f64 - 1000.0) * 0.25 } }
prog!(f32, tame tame32,
    pairs [(0, |a, b| a.hadd(b), |x, y| x + y), (1, |a, b| a.hsub(b), |x, y| x - y)],
    reduce [(0, |d| (Sum::sum(&d.simd_iter(f32s(0.0)).simd_reduce(f32s(0.0), |a, v| a + Round::trunc(&v))) + 0.0).to_bits() as u64, |d| (d.iter().map(|x| x.trunc()).sum::<f32>() + 0.0).to_bits() as u64),
            (1, |d| (d.simd_iter(f32s(-1e9)).simd_reduce(f32s(-1e9), |a, v| Cmp::max(&a, v)).scalar_reduce(-1e9f32, |a, x| if x > a { x } else { a }) + 0.0).to_bits() as u64, |d| (d.iter().fold(-1e9f32, |a, x| if *x > a { *x } else { a }) + 0.0).to_bits() as u64)],
    (0, "add", |a, b| a + b, |a, b| a + b), (1, "sub", |a, b| a - b, |a, b| a - b), (2, "mul", |a, b| a * b, |a, b| a * b), (3, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (4, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (5, "floor", |a, _| Round::floor(&a), |a, _| a.floor()), (6, "ceil", |a, _| Round::ceil(&a), |a, _| a.ceil()), (7, "trunc", |a, _| Round::trunc(&a), |a, _| a.trunc()), (8, "abs", |a, _| Abs::abs(&a), |a, _| a.abs()),
    (9, "sqrt of abs", |a, _| faster::intrin::sqrt::Sqrt::sqrt(&Abs::abs(&a)), |a, _| a.abs().sqrt()), (10, "through f64", |a, b| { let (x, y) = a.upcast(); let (p, q) = b.upcast(); Downcast::<V<f32>>::saturating_downcast(x * p, y * q) }, |a, b| (a as f64 * b as f64) as f32), (11, "div", |a, b| a / b, |a, b| a / b));
prog!(f64, tame tame64,
    pairs [(0, |a, b| a.hadd(b), |x, y| x + y), (1, |a, b| a.hsub(b), |x, y| x - y)],
    reduce [(0, |d| (Sum::sum(&d.simd_iter(f64s(0.0)).simd_reduce(f64s(0.0), |a, v| a + Round::floor(&v))) + 0.0).to_bits(), |d| (d.iter().map(|x| x.floor()).sum::<f64>() + 0.0).to_bits())],
    (0, "add", |a, b| a + b, |a, b| a + b), (1, "sub", |a, b| a - b, |a, b| a - b), (2, "mul", |a, b| a * b, |a, b| a * b), (3, "min", |a, b| Cmp::min(&a, b), |a, b| if a < b { a } else { b }), (4, "max", |a, b| Cmp::max(&a, b), |a, b| if a > b { a } else { b }),
    (5, "floor", |a, _| Round::floor(&a), |a, _| a.floor()), (6, "ceil", |a, _| Round::ceil(&a), |a, _| a.ceil()), (7, "trunc", |a, _| Round::trunc(&a), |a, _| a.trunc()), (8, "abs", |a, _| Abs::abs(&a), |a, _| a.abs()), (9, "sqrt of abs", |a, _| faster::intrin::sqrt::Sqrt::sqrt(&Abs::abs(&a)), |a, _| a.abs().sqrt()), (10, "div", |a, b| a / b, |a, b| a / b));

#[derive(Clone, Copy)]
struct Step<T> { op: usize, k: Option<T> } // operand: a constant, or the element as it was at the start
fn run_v<T: Prog>(p: &[Step<T>], x0: Vof<T>, y: Option<Vof<T>>) -> Vof<T> {
    let mut a = x0;
    for st in p { let b = match st.k { Some(k) => <Vof<T> as Packed>::splat(k), None => y.unwrap_or(x0) }; a = T::v(st.op, a, b); if T::FLOAT { a = fix(a); } }
    a
}
/// Normalises NaN and zero signs, where builds may differ.
fn fix<W: Packed>(a: W) -> W where W::Scalar: Prog { let l = vget(&a); vmk::<W>(&Lanes::from_fn(l.n, |i| norm(l[i]))) }
fn norm<T: Prog>(x: T) -> T { if !T::FLOAT { x } else if x.is_nan() { T::of(if T::BITS == 32 { 0x7fc00000 } else { 0x7ff8 << 48 }) } else if x.bits() << (65 - T::BITS) == 0 { T::of(0) } else { x } }
fn run_s<T: Prog>(p: &[Step<T>], x0: T, y: Option<T>) -> T {
    let mut a = x0;
    for st in p { a = norm(T::s(st.op, a, match st.k { Some(k) => k, None => y.unwrap_or(x0) })); }
    a
}
/// A program over the pairs of a de-interleaving zip, for the types that have one.
trait Dz: Prog { fn dz(_d: &'static [Self], _dv: Vof<Self>, _p: &'static [Step<Self>]) -> Option<Vec<Self>> { None } }
macro_rules! dz { ($($e:ident)*) => { $( impl Dz for $e { fn dz(d: &'static [Self], dv: Vof<Self>, p: &'static [Step<Self>]) -> Option<Vec<Self>> { Some(Self::iter(d, dv).stride_zip().simd_map(|(v, y)| run_v(p, v, Some(y))).scalar_collect()) } } )* } }
dz!(u8 i8 u16 i16 u32 i32);
impl Dz for u64 {} impl Dz for i64 {} impl Dz for f32 {} impl Dz for f64 {}
fn program<T: Dz>(s: &mut Src, c: &mut Ctx) -> Res {
    // lengths must not depend on the width of the build's vectors
    let n = match s.upto(2) { 0 => s.below(20), 1 => s.below(140), _ => *s.pick(&[16usize, 32, 64, 96, 31, 33, 8, 15, 17, 4, 7, 9]) };
    let form = s.below(8);
    let tame = |x: T| T::tame(if x.is_nan() { T::tag(1) } else { x });
    let gen = |s: &mut Src, n: usize| -> Vec<T> { (0..n).map(|i| tame(if s.chance(1, 3) { T::tag(i as u64) } else { T::gen(s) })).map(norm).collect() };
    let data = gen(s, n);
    let other = gen(s, n);
    let len = 1 + s.below(6);
    // a NaN produced on the way would make minimum and maximum depend on operand order: stop before those
    let p: Vec<Step<T>> = (0..len).map(|_| { let op = s.below(T::N); let k = if s.chance(2, 3) { Some(norm(tame(T::gen(s)))) } else { None }; Step { op, k } }).collect();
    let dv = <Vof<T> as Packed>::splat(tame(T::gen(s)));
    c.note(|| format!("{} program {} on {}, form {}", T::NAME, p.iter().map(|st| format!("{} {}", T::name(st.op), match st.k { Some(k) => format!("{:?}", k), None => "self".into() })).collect::<Vec<_>>().join(", then "), short(&data), form));
    c.nt(n > 1 && !trivial(&data));
    let hits_nan = |p: &[Step<T>], x0: T, y: Option<T>| -> bool { let mut a = x0; for st in p { a = norm(T::s(st.op, a, match st.k { Some(k) => k, None => y.unwrap_or(x0) })); if a.is_nan() { return true; } } false };
    let d: &'static [T] = guarded(0, &data, Place::draw(s));
    let e: &'static [T] = guarded(1, &other, Place::draw(s));
    let drop_it = T::FLOAT && (0..n).any(|i| hits_nan(&p, data[i], None) || hits_nan(&p, data[i], Some(other[i])) || (form == 2 && i % 2 == 0 && i + 1 < n && hits_nan(&p, data[i], Some(data[i + 1]))));
    let mut p = p;
    if drop_it { p.truncate(0); c.label("program dropped: produces NaN"); }
    let p: &'static [Step<T>] = leak(p);
    let plain: Vec<T> = data.iter().map(|x| run_s(p, *x, None)).collect();
    let (got, want): (Vec<T>, Vec<T>) = match form {
        0 => (T::iter(d, dv).simd_map(|v| run_v(p, v, None)).scalar_collect(), plain),
        1 => ((T::iter(d, dv), T::iter(e, dv)).zip().simd_map(|(v, y)| run_v(p, v, Some(y))).scalar_collect(), (0..n).map(|i| run_s(p, data[i], Some(other[i]))).collect()),
        2 => { let dl = leak(d); (dl.stride_two((dv, dv)).zip().simd_map(|(v, y)| run_v(p, v, Some(y))).scalar_collect(), (0..n / 2).map(|i| run_s(p, data[2 * i], Some(data[2 * i + 1]))).collect()) }
        3 => { let m = guarded(2, &data, Place::End); T::iter_mut(m, dv).simd_for_each(|v| *v = run_v(p, *v, None)); (m.to_vec(), plain) }
        4 => { let b = guarded(2, &other, Place::End); T::iter_own(data.clone(), dv).simd_map(|v| run_v(p, v, None)).scalar_fill(b); (b.to_vec(), plain) }
        7 => match T::dz(d, dv, p) { // de-interleaved
            Some(r) => (r, (0..n / 2).map(|i| run_s(p, data[2 * i], Some(data[2 * i + 1]))).collect()),
            None => (T::iter(d, dv).simd_map(|v| run_v(p, v, None)).scalar_collect(), plain),
        }
        5 => { // pairwise operations over whole pairs
            let m = n / 2 * 2;
            let op = s.below(2);
            let dd: &'static [T] = &d[..m];
            let has = [T::NAME == "u8", T::NAME == "i16", T::FLOAT].iter().any(|x| *x);
            let q = |v: Vof<T>| if has { let r = T::pairs(v, v, op); if T::FLOAT { fix(r) } else { r } } else { v };
            let sq = |i: usize| -> T { let j = i & !1; if has { norm(T::spairs(data[j], data[j + 1], op)) } else { data[i] } };
            (T::iter(dd, dv).simd_map(|v| q(v)).simd_map(|v| run_v(p, v, None)).scalar_collect(), (0..m).map(|i| run_s(p, sq(i), None)).collect())
        }
        _ => { // exact reductions
            for op in 0..3 {
                let (g, w) = (T::reduce(d, op), T::sreduce(&data, op));
                ck!(g == w, "wrong-reduction", "reduction {} over {} is {:x}, expected {:x}", op, short(&data), g, w);
                c.dig(g);
            }
            (vec![], vec![])
        }
    };
    let got: Vec<T> = got.into_iter().map(norm).collect();
    for x in &got { c.dig(x.bits()); }
    c.dig(got.len() as u64);
    cmp_seq("the program's result", &got, &want)
}
include!("c25_ops.in");
fn main() { let _ = m8; main_with(|| {
    let mut k = Check::new("C25", RULE, 8000, 300000);
    macro_rules! a { ($($e:ident)*) => { $( k.add(concat!("program ", stringify!($e)), program::<$e>); )* } }
    a!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);
    macro_rules! o { ($v:ident, $e:ident) => { k.add(concat!("operations ", stringify!($v)), chain::<$v>); } }
    all_vecs!(o);
    k
}) }
