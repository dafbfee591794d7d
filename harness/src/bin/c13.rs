#![allow(unused_imports)]
use fv::prelude::*;

fn ok_abs<T: El, R: El>(a: T, r: R) -> Result<(), String> {
    if T::FLOAT {
        if a.is_nan() { return if r.is_nan() { Ok(()) } else { Err("expected NaN".into()) }; }
        return eqb(a.bits() & (mask(T::BITS) >> 1), r);
    }
    let w = a.as_i128(); let w = if w < 0 { -w } else { w };
    if R::FLOAT || R::BITS != T::BITS { return Err("unexpected type".into()); }
    eqb((w as u128 as u64) & mask(T::BITS), r)
}
fn ok_minmax<T: El>(max: bool) -> impl Fn(T, T, T) -> Result<(), String> {
    move |a, b, r| {
        let w = if (a < b) == max { b } else { a };
        if T::FLOAT { eqn(w, r) } else { eqb(w.bits(), r) }
    }
}
pub fn c13() -> Check {
    let mut k = Check::new("C13", "Lane values: edge-biased, related operands and raw bits; 8-bit pairs enumerated. Non-trivial: not all lanes of the operands equal. Distinct: distinct (build, variant, choices).", 2500, 60000);
    macro_rules! ab { ($v:ident, $e:ident) => {
        k.add(concat!("abs ", stringify!($v)), |s, c| unary::<$v, <$v as Abs>::Out, _, _>(s, c, "abs", <$e as El>::gen, |v| Abs::abs(&v), ok_abs));
    } }
    ab!(f32x4, f32); ab!(f64x2, f64); ab!(f32x8, f32); ab!(f64x4, f64); ab!(i8x16, i8); ab!(i16x8, i16); ab!(i32x4, i32);
    ab!(i8x32, i8); ab!(i16x16, i16); ab!(i32x8, i32); ab!(i64x2, i64); ab!(i64x4, i64); ab!(i64x8, i64);
    macro_rules! ab8 { ($v:ident) => {
        k.enumerate(concat!("abs all values ", stringify!($v)), 256, |s, c| { let b = s.upto(255); unary_on::<$v, <$v as Abs>::Out, _, _>(&Lanes::from_fn(nl::<$v>(), |i| <i8 as El>::of((b + 7 * i as u64) & 255)), c, "abs", |v| Abs::abs(&v), ok_abs) });
    } }
    ab8!(i8x16); ab8!(i8x32);
    macro_rules! ab16 { ($v:ident) => {
        k.enumerate(concat!("abs all values ", stringify!($v)), 256, |s, c| {
            let b = s.upto(255); c.note(|| format!("abs of all 16-bit values with high byte {} + lane", b));
            for lo in 0..256u64 { let vb = c.verbose; c.verbose = false;
                let r = unary_on::<$v, <$v as Abs>::Out, _, _>(&Lanes::from_fn(nl::<$v>(), |i| <i16 as El>::of((((b + i as u64) & 255) << 8) | lo)), c, "abs", |v| Abs::abs(&v), ok_abs);
                c.verbose = vb; r?; }
            Ok(()) });
    } }
    ab16!(i16x8); ab16!(i16x16);
    macro_rules! mm { ($v:ident, $e:ident) => {
        k.add(concat!("min ", stringify!($v)), |s, c| binary::<$v, $v, _, _>(s, c, "min", gen_num::<$e>, |a, b| Cmp::min(&a, b), ok_minmax(false)));
        k.add(concat!("max ", stringify!($v)), |s, c| binary::<$v, $v, _, _>(s, c, "max", gen_num::<$e>, |a, b| Cmp::max(&a, b), ok_minmax(true)));
    } }
    mm!(u8x16, u8); mm!(i8x16, i8); mm!(u16x8, u16); mm!(i16x8, i16); mm!(u32x4, u32); mm!(i32x4, i32); mm!(f32x4, f32); mm!(f64x2, f64);
    mm!(u8x32, u8); mm!(i8x32, i8); mm!(u16x16, u16); mm!(i16x16, i16); mm!(u32x8, u32); mm!(i32x8, i32); mm!(f32x8, f32); mm!(f64x4, f64);
    macro_rules! mm8 { ($v:ident) => {
        k.enumerate(concat!("min all pairs ", stringify!($v)), 256, |s, c| all_pairs8::<$v, $v, _, _>(s, c, "min", |a, b| Cmp::min(&a, b), ok_minmax(false)));
        k.enumerate(concat!("max all pairs ", stringify!($v)), 256, |s, c| all_pairs8::<$v, $v, _, _>(s, c, "max", |a, b| Cmp::max(&a, b), ok_minmax(true)));
    } }
    mm8!(u8x16); mm8!(i8x16); mm8!(u8x32); mm8!(i8x32);
    macro_rules! ab32 { ($v:ident) => {
        k.sweep(concat!("abs sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, <$v as Abs>::Out, _, _>(s, c, "abs", |v| Abs::abs(&v), ok_abs));
    } }
    ab32!(i32x4); ab32!(i32x8); ab32!(f32x4); ab32!(f32x8);
    macro_rules! mm16 { ($v:ident) => {
        k.sweep(concat!("min sweep ", stringify!($v)), 65536, |s, c| sweep2::<$v, $v, _, _>(s, c, "min", |a, b| Cmp::min(&a, b), ok_minmax(false)));
        k.sweep(concat!("max sweep ", stringify!($v)), 65536, |s, c| sweep2::<$v, $v, _, _>(s, c, "max", |a, b| Cmp::max(&a, b), ok_minmax(true)));
    } }
    mm16!(u16x8); mm16!(i16x8); mm16!(u16x16); mm16!(i16x16);
    k
}

fn main() { main_with(c13) }
