#![allow(unused_imports)]
use fv::prelude::*;

pub fn c20() -> Check {
    let mut k = Check::new("C20", "Source lanes edge-biased around the narrow type's bounds, tagged, or raw bits; all 16-bit values enumerated in every lane. Non-trivial: neither operand uniform.", 8000, 200000);
    macro_rules! dn { ($a:ident, $e:ident, $b:ident) => {
        k.add(concat!(stringify!($a), " to ", stringify!($b)), |s, c| { let a = gen_lanes(s, nl::<$a>(), <$e as El>::gen); let b = gen_lanes(s, nl::<$a>(), <$e as El>::gen); down_on::<$a, $b>(&a, &b, c, |v, w| Downcast::<$b>::saturating_downcast(v, w)) });
    } }
    dn!(i32x4, i32, i16x8); dn!(i64x2, i64, i32x4); dn!(u64x2, u64, u32x4); dn!(f64x2, f64, f32x4); dn!(i16x8, i16, i8x16); dn!(u32x4, u32, u16x8); dn!(u16x8, u16, u8x16);
    dn!(i32x8, i32, i16x16); dn!(i16x16, i16, i8x32); dn!(u32x8, u32, u16x16); dn!(u16x16, u16, u8x32); dn!(i64x4, i64, i32x8); dn!(u64x4, u64, u32x8); dn!(f64x4, f64, f32x8);
    macro_rules! all { ($a:ident, $e:ident, $b:ident) => {
        k.enumerate(concat!("all values ", stringify!($a), " to ", stringify!($b)), 1 << 8, |s, c| {
            let b = s.upto(255); c.note(|| format!("all 16-bit values with low byte {} + lane", b)); let v = c.verbose; c.verbose = false;
            for h in 0..256u64 {
                let x = Lanes::from_fn(nl::<$a>(), |i| <$e as El>::of(((b + i as u64) & 255) | (((h + 5 * i as u64) & 255) << 8)));
                let y = Lanes::from_fn(nl::<$a>(), |i| <$e as El>::of(((b + 128 + i as u64) & 255) | (((h + 3 * i as u64) & 255) << 8)));
                let r = down_on::<$a, $b>(&x, &y, c, |v, w| Downcast::<$b>::saturating_downcast(v, w)); if r.is_err() { return r; }
            }
            c.verbose = v; Ok(()) });
    } }
    all!(i16x8, i16, i8x16); all!(u16x8, u16, u8x16); all!(i16x16, i16, i8x32); all!(u16x16, u16, u8x32);
    macro_rules! sw { ($a:ident, $b:ident) => {
        k.sweep(concat!("sweep ", stringify!($a), " to ", stringify!($b)), 65536, |s, c| sweep_down::<$a, $b>(s, c, |v, w| Downcast::<$b>::saturating_downcast(v, w)));
    } }
    sw!(i32x4, i16x8); sw!(u32x4, u16x8); sw!(i32x8, i16x16); sw!(u32x8, u16x16);
    k
}

fn main() { main_with(c20) }
