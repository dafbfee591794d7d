//! Properties of vector operations (lane-wise, horizontal, conversions, patterns, loads).
use crate::ck;
use crate::el::*;
use crate::mem::{guarded, Place};
use crate::pbt::*;
use faster::arch::current::vecs::*;
use faster::vecs::{Packable, Packed, Pattern};
use faster::*;

/// Runs the macro once per (vector, element) pair.
#[macro_export]
macro_rules! ints { ($m:ident) => {
    $m!(u8x16, u8); $m!(u8x32, u8); $m!(u8x64, u8); $m!(i8x16, i8); $m!(i8x32, i8); $m!(i8x64, i8);
    $m!(u16x8, u16); $m!(u16x16, u16); $m!(u16x32, u16); $m!(i16x8, i16); $m!(i16x16, i16); $m!(i16x32, i16);
    $m!(u32x4, u32); $m!(u32x8, u32); $m!(u32x16, u32); $m!(i32x4, i32); $m!(i32x8, i32); $m!(i32x16, i32);
    $m!(u64x2, u64); $m!(u64x4, u64); $m!(u64x8, u64); $m!(i64x2, i64); $m!(i64x4, i64); $m!(i64x8, i64);
} }
#[macro_export]
macro_rules! floats { ($m:ident) => {
    $m!(f32x4, f32); $m!(f32x8, f32); $m!(f32x16, f32); $m!(f64x2, f64); $m!(f64x4, f64); $m!(f64x8, f64);
} }
#[macro_export]
macro_rules! all_vecs { ($m:ident) => { ints!($m); floats!($m); } }

pub fn hex<T: El>(l: &[T]) -> String {
    if T::FLOAT { format!("{:?} (bits {})", l, l.iter().map(|v| format!("{:x}", v.bits())).collect::<Vec<_>>().join(" ")) } else { format!("{:?}", l) }
}

pub fn unary<V, R, F, P>(s: &mut Src, c: &mut Ctx, op: &str, g: fn(&mut Src) -> V::Scalar, f: F, ok: P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V) -> R, P: Fn(V::Scalar, R::Scalar) -> Result<(), String> {
    let a = gen_lanes(s, nl::<V>(), g);
    unary_on::<V, R, F, P>(&a, c, op, f, ok)
}
pub fn unary_on<V, R, F, P>(a: &Lanes<V::Scalar>, c: &mut Ctx, op: &str, f: F, ok: P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V) -> R, P: Fn(V::Scalar, R::Scalar) -> Result<(), String> {
    c.note(|| format!("{} a={}", op, hex(a)));
    c.nt(!trivial(a));
    let r = vget(&f(vmk::<V>(a)));
    ck!(r.n == a.n, "lanes", "{}: {} lanes in, {} out", op, a.n, r.n);
    for i in 0..a.n {
        if let Err(e) = ok(a[i], r[i]) { return Err(Fail::new("wrong-lane", format!("{}: lane {}: input {} gave {}, {}", op, i, hex(&a[i..i + 1]), hex(&r[i..i + 1]), e))); }
        c.dig(r[i].bits());
    }
    Ok(())
}
pub fn binary<V, R, F, P>(s: &mut Src, c: &mut Ctx, op: &str, g: fn(&mut Src) -> V::Scalar, f: F, ok: P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V, V) -> R, P: Fn(V::Scalar, V::Scalar, R::Scalar) -> Result<(), String> {
    let a = gen_lanes(s, nl::<V>(), g);
    let b = gen_rel(s, &a, g);
    binary_on::<V, R, F, P>(&a, &b, c, op, &f, &ok)
}
pub fn binary_on<V, R, F, P>(a: &Lanes<V::Scalar>, b: &Lanes<V::Scalar>, c: &mut Ctx, op: &str, f: &F, ok: &P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V, V) -> R, P: Fn(V::Scalar, V::Scalar, R::Scalar) -> Result<(), String> {
    c.note(|| format!("{} a={} b={}", op, hex(a), hex(b)));
    c.nt(!trivial(a) || !trivial(b));
    let r = vget(&f(vmk::<V>(a), vmk::<V>(b)));
    for i in 0..a.n {
        if let Err(e) = ok(a[i], b[i], r[i]) { return Err(Fail::new("wrong-lane", format!("{}: lane {}: ({}, {}) gave {}, {}", op, i, hex(&a[i..i + 1]), hex(&b[i..i + 1]), hex(&r[i..i + 1]), e))); }
    }
    Ok(())
}
/// All pairs of 8-bit operands in every lane: case number = base of the first operand.
pub fn all_pairs8<V, R, F, P>(s: &mut Src, c: &mut Ctx, op: &str, f: F, ok: P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V, V) -> R, P: Fn(V::Scalar, V::Scalar, R::Scalar) -> Result<(), String> {
    let base = s.upto(255);
    c.note(|| format!("{}: all second operands for first operand {} + 37*lane", op, base));
    let n = nl::<V>();
    let a = Lanes::from_fn(n, |i| V::Scalar::of((base + 37 * i as u64) & 255));
    let v = c.verbose; c.verbose = false;
    for k in 0..256u64 {
        let b = Lanes::from_fn(n, |i| V::Scalar::of((k + 11 * i as u64) & 255));
        let r = binary_on::<V, R, F, P>(&a, &b, c, op, &f, &ok);
        if r.is_err() { c.verbose = v; return r; }
    }
    c.verbose = v;
    Ok(())
}
/// A block of 65536 consecutive bit patterns of 32 bits, spread over the lanes.
fn block<T: El>(b: u64, k: u64, n: usize) -> Lanes<T> { Lanes::from_fn(n, |i| T::of((b << 16) | (k + (i as u64 + b) % n as u64))) }
pub fn sweep1<V, R, F, P>(s: &mut Src, c: &mut Ctx, op: &str, f: F, ok: P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V) -> R, P: Fn(V::Scalar, R::Scalar) -> Result<(), String> {
    let b = s.upto(65535);
    c.note(|| format!("{} of all values with bits {:04x}0000 to {:04x}ffff", op, b, b));
    c.nt(true);
    let n = nl::<V>();
    for k in (0..65536).step_by(n) {
        let a = block::<V::Scalar>(b, k, n);
        let r = vget(&f(vmk::<V>(&a)));
        for i in 0..n { if let Err(e) = ok(a[i], r[i]) { return Err(Fail::new("wrong-lane", format!("{}: lane {}: input {} gave {}, {}", op, i, hex(&a[i..i + 1]), hex(&r[i..i + 1]), e))); } }
    }
    Ok(())
}
/// One 16-bit value against all others, spread over the lanes.
pub fn sweep2<V, R, F, P>(s: &mut Src, c: &mut Ctx, op: &str, f: F, ok: P) -> Res
where V: Packed, R: Packed, V::Scalar: El, R::Scalar: El, F: Fn(V, V) -> R, P: Fn(V::Scalar, V::Scalar, R::Scalar) -> Result<(), String> {
    let b = s.upto(65535);
    c.note(|| format!("{} of {:04x} with every 16-bit value", op, b));
    c.nt(true);
    let n = nl::<V>();
    let a = Lanes::from_fn(n, |_| V::Scalar::of(b));
    for k in (0..65536).step_by(n) {
        let y = Lanes::from_fn(n, |i| V::Scalar::of(k + (i as u64 + b) % n as u64));
        let r = vget(&f(vmk::<V>(&a), vmk::<V>(&y)));
        for i in 0..n { if let Err(e) = ok(a[i], y[i], r[i]) { return Err(Fail::new("wrong-lane", format!("{}: lane {}: ({}, {}) gave {}, {}", op, i, hex(&a[i..i + 1]), hex(&y[i..i + 1]), hex(&r[i..i + 1]), e))); } }
    }
    Ok(())
}
pub fn sweep_up<A, B>(s: &mut Src, c: &mut Ctx, f: fn(A) -> (B, B)) -> Res where A: Packed, B: Packed, A::Scalar: El, B::Scalar: El {
    let b = s.upto(65535);
    c.note(|| format!("upcast of all values with bits {:04x}0000 to {:04x}ffff", b, b));
    c.nt(true);
    let n = nl::<A>();
    let v = c.verbose; c.verbose = false;
    for k in (0..65536).step_by(n) { up_on::<A, B>(&block::<A::Scalar>(b, k, n), c, f)?; }
    c.verbose = v;
    Ok(())
}
pub fn sweep_down<A, B>(s: &mut Src, c: &mut Ctx, f: fn(A, A) -> B) -> Res where A: Packed, B: Packed, A::Scalar: El, B::Scalar: El {
    let b = s.upto(65535);
    c.note(|| format!("saturating_downcast of all values with bits {:04x}0000 to {:04x}ffff", b, b));
    c.nt(true);
    let n = nl::<A>();
    let v = c.verbose; c.verbose = false;
    for k in (0..65536).step_by(2 * n) { down_on::<A, B>(&block::<A::Scalar>(b, k, n), &block::<A::Scalar>(b, k + n as u64, n), c, f)?; }
    c.verbose = v;
    Ok(())
}
pub fn exact<T: El>(want: T) -> impl Fn(T) -> Result<(), String> { move |got| if same(want, got) { Ok(()) } else { Err(format!("expected {}", hex(&[want]))) } }
pub fn eqb<T: El>(want: u64, got: T) -> Result<(), String> { if got.bits() == want { Ok(()) } else { Err(format!("expected {}", hex(&[T::of(want)]))) } }
pub fn eqn<T: El>(want: T, got: T) -> Result<(), String> { if same_num(want, got) { Ok(()) } else { Err(format!("expected {}", hex(&[want]))) } }
pub fn clamp<T: El>(x: i128) -> u64 {
    let (lo, hi) = if T::SIGNED { (-(1i128 << (T::BITS - 1)), (1i128 << (T::BITS - 1)) - 1) } else { (0, (1i128 << T::BITS) - 1) };
    let v = if x < lo { lo } else if x > hi { hi } else { x };
    (v as u128 as u64) & mask(T::BITS)
}
pub fn mask(b: u32) -> u64 { if b >= 64 { !0 } else { (1 << b) - 1 } }

pub fn conv_exact<A: El, B: El>(a: A) -> u64 {
    // value-preserving conversion, as bits of B
    if B::FLOAT {
        let v = a.as_f64();
        if B::BITS == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() }
    } else { (a.as_i128() as u128 as u64) & mask(B::BITS) }
}
pub fn up_on<A, B>(a: &Lanes<A::Scalar>, c: &mut Ctx, f: fn(A) -> (B, B)) -> Res where A: Packed, B: Packed, A::Scalar: El, B::Scalar: El {
    c.note(|| format!("upcast {}", hex(a)));
    c.nt(!trivial(a));
    let (x, y) = f(vmk::<A>(a));
    let (x, y) = (vget(&x), vget(&y));
    ck!(x.n + y.n == a.n, "lanes", "{} lanes became {} + {}", a.n, x.n, y.n);
    for i in 0..a.n {
        let got = if i < x.n { x[i] } else { y[i - x.n] };
        let want = B::Scalar::of(conv_exact::<A::Scalar, B::Scalar>(a[i]));
        ck!(same(got, want), "wrong-lane", "upcast of {:?}: lane {} is {:?}, expected {:?} (got {:?}, {:?})", &a[..], i, got, want, &x[..], &y[..]);
    }
    Ok(())
}
pub fn down_on<A, B>(a: &Lanes<A::Scalar>, b: &Lanes<A::Scalar>, c: &mut Ctx, f: fn(A, A) -> B) -> Res where A: Packed, B: Packed, A::Scalar: El, B::Scalar: El {
    c.note(|| format!("saturating_downcast {} and {}", hex(a), hex(b)));
    c.nt(!trivial(a) && !trivial(b));
    let r = vget(&f(vmk::<A>(a), vmk::<A>(b)));
    ck!(r.n == a.n + b.n, "lanes", "{} + {} lanes became {}", a.n, b.n, r.n);
    for i in 0..r.n {
        let v = if i < a.n { a[i] } else { b[i - a.n] };
        let want = if B::Scalar::FLOAT { B::Scalar::of(conv_exact::<A::Scalar, B::Scalar>(v)) } else { B::Scalar::of(clamp::<B::Scalar>(v.as_i128())) };
        ck!(same(r[i], want), "wrong-lane", "saturating_downcast of {:?} and {:?}: lane {} is {:?}, expected {:?} (result {:?})", &a[..], &b[..], i, r[i], want, &r[..]);
    }
    Ok(())
}
pub fn cmp_lanes<T: El>(what: &str, got: &[T], want: &[T]) -> Res {
    ck!(same_slice(got, want), "wrong-lane", "{} gave {}, expected {}", what, hex(got), hex(want));
    Ok(())
}
/// Integer-valued floats of small magnitude: sums are exact in any order.
pub fn gen_exact<T: El>(s: &mut Src) -> T { let v = s.upto(1000) as i64 - 0; let v = if s.chance(1, 3) { -v } else { v }; if T::BITS == 32 { T::of((v as f32).to_bits() as u64) } else { T::of((v as f64).to_bits()) } }
pub const CHECKED: bool = cfg!(debug_assertions);
