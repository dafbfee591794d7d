#![allow(unused_imports)]
use fv::prelude::*;

fn ok_mask<T: El, M: El>(ne: bool) -> impl Fn(T, T, M) -> Result<(), String> {
    move |a, b, r| eqb::<M>(if (a == b) != ne { mask(M::BITS) } else { 0 }, r)
}
pub fn c16() -> Check {
    let mut k = Check::new("C16", "Second operand lanes equal, one bit apart, off by one or unrelated to the first, in arbitrary patterns; 8-bit pairs enumerated. Non-trivial: both equal and unequal lanes occur.", 10000, 250000);
    macro_rules! eq { ($v:ident, $e:ident) => {
        fn both(s: &mut Src, c: &mut Ctx) -> Res {
            let a = gen_lanes(s, nl::<$v>(), <$e as El>::gen);
            let b = gen_rel(s, &a, <$e as El>::gen);
            c.note(|| format!("a={} b={}", hex(&a), hex(&b)));
            let e = a.iter().zip(b.iter()).filter(|(x, y)| x == y).count();
            c.nt(e > 0 && e < a.n);
            let r = vget(&faster::intrin::eq::Eq::eq_mask(&vmk::<$v>(&a), vmk::<$v>(&b)));
            let q = vget(&faster::intrin::eq::Eq::ne_mask(&vmk::<$v>(&a), vmk::<$v>(&b)));
            ck!(r.n == a.n && q.n == a.n, "lanes", "mask lane counts {} {}", r.n, q.n);
            for i in 0..a.n {
                if let Err(m) = ok_mask(false)(a[i], b[i], r[i]) { return Err(Fail::new("wrong-mask", format!("eq_mask lane {}: {:?} vs {:?} gave {:x}, {}", i, a[i], b[i], r[i].bits(), m))); }
                if let Err(m) = ok_mask(true)(a[i], b[i], q[i]) { return Err(Fail::new("wrong-mask", format!("ne_mask lane {}: {:?} vs {:?} gave {:x}, {}", i, a[i], b[i], q[i].bits(), m))); }
            }
            Ok(())
        }
        k.add(concat!("masks ", stringify!($v)), both);
    } }
    macro_rules! eqs { ($v:ident, $e:ident) => { { eq!($v, $e); } } }
    eqs!(u8x16, u8); eqs!(i8x16, i8); eqs!(u16x8, u16); eqs!(i16x8, i16); eqs!(u32x4, u32); eqs!(i32x4, i32); eqs!(f32x4, f32); eqs!(f64x2, f64); eqs!(u64x2, u64); eqs!(i64x2, i64);
    eqs!(u8x32, u8); eqs!(i8x32, i8); eqs!(u16x16, u16); eqs!(i16x16, i16); eqs!(u32x8, u32); eqs!(i32x8, i32); eqs!(f32x8, f32); eqs!(f64x4, f64); eqs!(u64x4, u64); eqs!(i64x4, i64);
    macro_rules! eq8 { ($v:ident) => {
        k.enumerate(concat!("eq all pairs ", stringify!($v)), 256, |s, c| all_pairs8::<$v, <$v as faster::intrin::eq::Eq>::Out, _, _>(s, c, "eq_mask", |a, b| faster::intrin::eq::Eq::eq_mask(&a, b), ok_mask(false)));
        k.enumerate(concat!("ne all pairs ", stringify!($v)), 256, |s, c| all_pairs8::<$v, <$v as faster::intrin::eq::Eq>::Out, _, _>(s, c, "ne_mask", |a, b| faster::intrin::eq::Eq::ne_mask(&a, b), ok_mask(true)));
    } }
    eq8!(u8x16); eq8!(i8x16); eq8!(u8x32); eq8!(i8x32);
    macro_rules! eq16 { ($v:ident) => {
        k.sweep(concat!("eq sweep ", stringify!($v)), 65536, |s, c| sweep2::<$v, <$v as faster::intrin::eq::Eq>::Out, _, _>(s, c, "eq_mask", |a, b| faster::intrin::eq::Eq::eq_mask(&a, b), ok_mask(false)));
        k.sweep(concat!("ne sweep ", stringify!($v)), 65536, |s, c| sweep2::<$v, <$v as faster::intrin::eq::Eq>::Out, _, _>(s, c, "ne_mask", |a, b| faster::intrin::eq::Eq::ne_mask(&a, b), ok_mask(true)));
    } }
    eq16!(u16x8); eq16!(i16x8); eq16!(u16x16); eq16!(i16x16);
    k
}

fn main() { main_with(c16) }
