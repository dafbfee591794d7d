#![allow(unused_imports)]
use fv::prelude::*;

fn ok_sat<T: El>(sub: bool) -> impl Fn(T, T, T) -> Result<(), String> {
    move |a, b, r| eqb(clamp::<T>(if sub { a.as_i128() - b.as_i128() } else { a.as_i128() + b.as_i128() }), r)
}
pub fn c14() -> Check {
    let mut k = Check::new("C14", "Operand lanes edge-biased, related (equal, off by one, complement) and raw bits; all 8-bit pairs enumerated in every lane. Non-trivial: operand lanes not all equal.", 20000, 400000);
    macro_rules! sa { ($v:ident, $e:ident) => {
        k.add(concat!("add ", stringify!($v)), |s, c| binary::<$v, $v, _, _>(s, c, "saturating_add", <$e as El>::gen, |a, b| SaturatingAdd::saturating_add(&a, b), ok_sat(false)));
        k.add(concat!("sub ", stringify!($v)), |s, c| binary::<$v, $v, _, _>(s, c, "saturating_sub", <$e as El>::gen, |a, b| SaturatingSub::saturating_sub(&a, b), ok_sat(true)));
    } }
    sa!(u8x16, u8); sa!(i8x16, i8); sa!(u16x8, u16); sa!(i16x8, i16); sa!(u8x32, u8); sa!(i8x32, i8); sa!(u16x16, u16); sa!(i16x16, i16);
    macro_rules! s8 { ($v:ident) => {
        k.enumerate(concat!("add all pairs ", stringify!($v)), 256, |s, c| all_pairs8::<$v, $v, _, _>(s, c, "saturating_add", |a, b| SaturatingAdd::saturating_add(&a, b), ok_sat(false)));
        k.enumerate(concat!("sub all pairs ", stringify!($v)), 256, |s, c| all_pairs8::<$v, $v, _, _>(s, c, "saturating_sub", |a, b| SaturatingSub::saturating_sub(&a, b), ok_sat(true)));
    } }
    s8!(u8x16); s8!(i8x16); s8!(u8x32); s8!(i8x32);
    macro_rules! s16 { ($v:ident) => {
        k.sweep(concat!("add sweep ", stringify!($v)), 65536, |s, c| sweep2::<$v, $v, _, _>(s, c, "saturating_add", |a, b| SaturatingAdd::saturating_add(&a, b), ok_sat(false)));
        k.sweep(concat!("sub sweep ", stringify!($v)), 65536, |s, c| sweep2::<$v, $v, _, _>(s, c, "saturating_sub", |a, b| SaturatingSub::saturating_sub(&a, b), ok_sat(true)));
    } }
    s16!(u16x8); s16!(i16x8); s16!(u16x16); s16!(i16x16);
    k
}

fn main() { main_with(c14) }
