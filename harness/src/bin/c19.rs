#![allow(unused_imports)]
use fv::prelude::*;

pub fn c19() -> Check {
    let mut k = Check::new("C19", "Source lanes tagged, edge-biased or raw bits; all 8- and 16-bit values enumerated in every lane. Non-trivial: lanes not all equal.", 8000, 200000);
    macro_rules! up { ($a:ident, $e:ident, $b:ident) => {
        k.add(concat!(stringify!($a), " to ", stringify!($b)), |s, c| { let a = gen_lanes(s, nl::<$a>(), <$e as El>::gen); up_on::<$a, $b>(&a, c, |v| Upcast::<$b>::upcast(v)) });
    } }
    up!(u8x16, u8, u16x8); up!(i8x16, i8, i16x8); up!(u16x8, u16, u32x4); up!(i16x8, i16, i32x4); up!(u8x32, u8, u16x16); up!(i8x32, i8, i16x16);
    up!(u16x16, u16, u32x8); up!(i16x16, i16, i32x8); up!(f32x4, f32, f64x2); up!(i32x4, i32, f64x2); up!(i32x4, i32, i64x2); up!(u32x4, u32, u64x2);
    up!(f32x8, f32, f64x4); up!(i32x8, i32, f64x4); up!(i32x8, i32, i64x4); up!(u32x8, u32, u64x4);
    up!(f32x16, f32, f64x8); up!(i32x16, i32, f64x8); up!(i32x16, i32, i64x8); up!(u32x16, u32, u64x8);
    macro_rules! all { ($a:ident, $e:ident, $b:ident) => {
        k.enumerate(concat!("all values ", stringify!($a), " to ", stringify!($b)), 1 << 8, |s, c| {
            let b = s.upto(255); c.note(|| format!("all values with low byte {} + lane", b)); let v = c.verbose; c.verbose = false;
            for h in 0..(1u64 << (<$e as El>::BITS - 8)) {
                let a = Lanes::from_fn(nl::<$a>(), |i| <$e as El>::of(((b + i as u64) & 255) | (h << 8)));
                let r = up_on::<$a, $b>(&a, c, |v| Upcast::<$b>::upcast(v)); if r.is_err() { return r; }
            }
            c.verbose = v; Ok(()) });
    } }
    all!(u8x16, u8, u16x8); all!(i8x16, i8, i16x8); all!(u8x32, u8, u16x16); all!(i8x32, i8, i16x16);
    all!(u16x8, u16, u32x4); all!(i16x8, i16, i32x4); all!(u16x16, u16, u32x8); all!(i16x16, i16, i32x8);
    macro_rules! sw { ($a:ident, $b:ident) => {
        k.sweep(concat!("sweep ", stringify!($a), " to ", stringify!($b)), 65536, |s, c| sweep_up::<$a, $b>(s, c, |v| Upcast::<$b>::upcast(v)));
    } }
    sw!(u32x4, u64x2); sw!(i32x4, i64x2); sw!(i32x4, f64x2); sw!(f32x4, f64x2); sw!(u32x8, u64x4); sw!(i32x8, i64x4); sw!(i32x8, f64x4); sw!(f32x8, f64x4);
    k
}

fn main() { main_with(c19) }
