#![allow(unused_imports)]
use fv::prelude::*;

fn ok_round64(a: f64, r: f64) -> Result<(), String> {
    if a.is_nan() { return if r.is_nan() { Ok(()) } else { Err("expected NaN".into()) }; }
    if a.is_infinite() || a.abs() >= 4503599627370496.0 { return eqn(a, r); }
    let (lo, hi) = (a.floor(), a.ceil());
    let d = a - lo; // exact for |a| < 2^52
    let ok = if d < 0.5 { r == lo } else if d > 0.5 { r == hi } else { r == lo || r == hi };
    if ok { Ok(()) } else { Err(format!("expected the nearest of {} and {}", lo, hi)) }
}
fn ok_round32(a: f32, r: f32) -> Result<(), String> {
    if a.is_nan() || a.is_infinite() { return eqn(a, r); }
    ok_round64(a as f64, r as f64)
}
fn ok_rel(want: f64, got: f64) -> Result<(), String> {
    // Only finite, comfortably normal results are specified.
    if !(want.is_finite() && want.abs() < 1e38 && want.abs() > 1.2e-38) { return Ok(()); }
    let e = ((got - want) / want).abs();
    if e <= 1.5 / 4096.0 { Ok(()) } else { Err(format!("expected about {}, relative error {}", want, e)) }
}
pub fn c15() -> Check {
    let mut k = Check::new("C15", "Float lanes: small integers and quarters, exact ties and neighbours, integers around the exactness limit, all exponents, subnormals, infinities, NaN, raw bits. Non-trivial: lanes not all equal.", 12000, 300000);
    macro_rules! ro { ($v:ident, $e:ident, $okr:ident) => {
        k.add(concat!("floor ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "floor", <$e as El>::gen, |v| Round::floor(&v), |a, r| eqn(a.floor(), r)));
        k.add(concat!("ceil ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "ceil", <$e as El>::gen, |v| Round::ceil(&v), |a, r| eqn(a.ceil(), r)));
        k.add(concat!("trunc ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "trunc", <$e as El>::gen, |v| Round::trunc(&v), |a, r| eqn(a.trunc(), r)));
        k.add(concat!("round ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "round", <$e as El>::gen, |v| Round::round(&v), $okr));
        k.add(concat!("sqrt ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "sqrt", <$e as El>::gen, |v| faster::intrin::sqrt::Sqrt::sqrt(&v), |a, r| eqn(a.sqrt(), r)));
    } }
    ro!(f32x4, f32, ok_round32); ro!(f32x8, f32, ok_round32); ro!(f64x2, f64, ok_round64); ro!(f64x4, f64, ok_round64);
    macro_rules! re { ($v:ident) => {
        k.add(concat!("recip ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "recip", <f32 as El>::gen, |v| Recip::recip(&v), |a, r| if a.is_normal() { ok_rel(1.0 / a as f64, r as f64) } else { Ok(()) }));
        k.add(concat!("rsqrt ", stringify!($v)), |s, c| unary::<$v, $v, _, _>(s, c, "rsqrt", |s| <f32 as El>::gen(s).abs(), |v| faster::Rsqrt::rsqrt(&v), |a, r| if a.is_normal() { ok_rel(1.0 / (a as f64).sqrt(), r as f64) } else { Ok(()) }));
    } }
    re!(f32x4); re!(f32x8);
    macro_rules! sw { ($v:ident) => {
        k.sweep(concat!("floor sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "floor", |v| Round::floor(&v), |a: f32, r| eqn(a.floor(), r)));
        k.sweep(concat!("ceil sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "ceil", |v| Round::ceil(&v), |a: f32, r| eqn(a.ceil(), r)));
        k.sweep(concat!("trunc sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "trunc", |v| Round::trunc(&v), |a: f32, r| eqn(a.trunc(), r)));
        k.sweep(concat!("round sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "round", |v| Round::round(&v), ok_round32));
        k.sweep(concat!("sqrt sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "sqrt", |v| faster::intrin::sqrt::Sqrt::sqrt(&v), |a: f32, r| eqn(a.sqrt(), r)));
        k.sweep(concat!("recip sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "recip", |v| Recip::recip(&v), |a: f32, r: f32| if a.is_normal() { ok_rel(1.0 / a as f64, r as f64) } else { Ok(()) }));
        k.sweep(concat!("rsqrt sweep ", stringify!($v)), 65536, |s, c| sweep1::<$v, $v, _, _>(s, c, "rsqrt", |v| faster::Rsqrt::rsqrt(&v), |a: f32, r: f32| if a.is_normal() && a > 0.0 { ok_rel(1.0 / (a as f64).sqrt(), r as f64) } else { Ok(()) }));
    } }
    sw!(f32x4); sw!(f32x8);
    k.add("rsqrt scalar", |s, c| {
        let a = <f64 as El>::gen(s).abs(); let b = <f32 as El>::gen(s).abs();
        c.note(|| format!("rsqrt of {} and {}", a, b)); c.nt(a.is_normal() && b.is_normal());
        if a.is_normal() { let r = faster::Rsqrt::rsqrt(&a); let w = 1.0 / a.sqrt(); ck!(((r - w) / w).abs() < 1.5 / 4096.0, "wrong-lane", "rsqrt({}) = {}", a, r); }
        if b.is_normal() { let r = faster::Rsqrt::rsqrt(&b) as f64; let w = 1.0 / (b as f64).sqrt(); ck!(((r - w) / w).abs() < 1.5 / 4096.0, "wrong-lane", "rsqrt({}) = {}", b, r); }
        Ok(())
    });
    k
}

fn main() { main_with(c15) }
