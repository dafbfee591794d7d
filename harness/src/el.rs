//! Scalar element types: generation, bit access, reference arithmetic, iterator constructors.
use crate::pbt::Src;
use faster::vecs::{Packable, Packed};
use faster::{IntoSIMDIterator, IntoSIMDRefIterator, IntoSIMDRefMutIterator, SIMDIter};
use std::fmt::Debug;

pub type Vof<T> = <T as Packable>::Vector;

pub trait El: Packable + Copy + Default + PartialEq + PartialOrd + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const FLOAT: bool;
    const SIGNED: bool;
    fn bits(self) -> u64;
    fn of(b: u64) -> Self;
    /// Any value, biased towards edges (floats: including NaN, infinities, subnormals).
    fn gen(s: &mut Src) -> Self;
    fn as_i128(self) -> i128;
    fn as_f64(self) -> f64;
    fn is_nan(self) -> bool;
    /// Distinct small values for distinct i (modulo the range of the type).
    fn tag(i: u64) -> Self;
    fn iter<'a>(d: &'a [Self], def: Vof<Self>) -> SIMDIter<&'a [Self]>;
    fn iter_mut<'a>(d: &'a mut [Self], def: Vof<Self>) -> SIMDIter<&'a mut [Self]>;
    fn iter_own(d: Vec<Self>, def: Vof<Self>) -> SIMDIter<Vec<Self>>;
    fn iter_refref<'a>(d: &'a &'a [Self], def: Vof<Self>) -> SIMDIter<&'a [Self]>;
    fn iter_mutmut<'a>(d: &'a mut &'a mut [Self], def: Vof<Self>) -> SIMDIter<&'a mut [Self]>;
}

macro_rules! el_common {
    ($t:ident) => {
        fn iter<'a>(d: &'a [Self], def: Vof<Self>) -> SIMDIter<&'a [Self]> { d.simd_iter(def) }
        fn iter_mut<'a>(d: &'a mut [Self], def: Vof<Self>) -> SIMDIter<&'a mut [Self]> { d.simd_iter_mut(def) }
        fn iter_own(d: Vec<Self>, def: Vof<Self>) -> SIMDIter<Vec<Self>> { d.into_simd_iter(def) }
        fn iter_refref<'a>(d: &'a &'a [Self], def: Vof<Self>) -> SIMDIter<&'a [Self]> {
            <&'a [$t] as IntoSIMDRefIterator<'a>>::simd_iter(d, def)
        }
        fn iter_mutmut<'a>(d: &'a mut &'a mut [Self], def: Vof<Self>) -> SIMDIter<&'a mut [Self]> {
            <&'a mut [$t] as IntoSIMDRefMutIterator<'a>>::simd_iter_mut(d, def)
        }
    }
}

macro_rules! el_int {
    ($($t:ident, $u:ident, $bits:expr, $signed:expr;)*) => { $(
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = $bits;
            const FLOAT: bool = false;
            const SIGNED: bool = $signed;
            #[inline] fn bits(self) -> u64 { self as $u as u64 }
            #[inline] fn of(b: u64) -> Self { b as $t }
            fn gen(s: &mut Src) -> Self {
                match s.upto(9) {
                    0 => s.upto(20) as $t,
                    1 => (s.upto(20) as $t).wrapping_neg(),
                    2 => *s.pick(&[$t::max_value(), $t::min_value(), $t::max_value() - 1, $t::min_value().wrapping_add(1), $t::max_value() / 2, $t::max_value() / 2 + 1, $t::min_value() / 2, (0 as $t).wrapping_sub(1), ($t::max_value() / 2).wrapping_add(2)]),
                    3 => {
                        let k = s.upto($bits - 1) as u32;
                        let d = s.upto(2);
                        let v = (1u64 << k).wrapping_add(d).wrapping_sub(1) as $t;
                        if s.chance(1, 3) { v.wrapping_neg() } else { v }
                    }
                    4 => { // one byte pattern repeated or a narrow type's boundary
                        let w = *s.pick(&[7u32, 8, 15, 16, 31, 32]);
                        let d = s.upto(4) as i64 - 2;
                        let v = (1i64 << w).wrapping_add(d) as $t;
                        if s.chance(1, 2) { v.wrapping_neg() } else { v }
                    }
                    _ => s.bits($bits) as $t,
                }
            }
            #[inline] fn as_i128(self) -> i128 { self as i128 }
            #[inline] fn as_f64(self) -> f64 { self as f64 }
            #[inline] fn is_nan(self) -> bool { false }
            #[inline] fn tag(i: u64) -> Self { (i.wrapping_add(1)) as $t }
            el_common!($t);
        }
    )* }
}
el_int! {
    u8, u8, 8, false; i8, u8, 8, true;
    u16, u16, 16, false; i16, u16, 16, true;
    u32, u32, 32, false; i32, u32, 32, true;
    u64, u64, 64, false; i64, u64, 64, true;
}
macro_rules! el_float {
    ($($t:ident, $u:ident, $bits:expr, $mant:expr, $bias:expr;)*) => { $(
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = $bits;
            const FLOAT: bool = true;
            const SIGNED: bool = true;
            #[inline] fn bits(self) -> u64 { self.to_bits() as u64 }
            #[inline] fn of(b: u64) -> Self { $t::from_bits(b as $u) }
            fn gen(s: &mut Src) -> Self {
                let sign = |s: &mut Src, v: $t| if s.chance(1, 2) { -v } else { v };
                match s.upto(11) {
                    0 | 1 => { let v = s.upto(20) as $t; sign(s, v) }
                    2 => { let v = s.upto(4000) as $t * 0.25; sign(s, v) }
                    3 => { // exact ties and their neighbours
                        let k = s.upto($mant as u64) as u32;
                        let base = (1u64 << k) as $t + s.upto(40) as $t + 0.5;
                        let b = (base.to_bits() as i64 + s.upto(2) as i64 - 1) as $u;
                        sign(s, $t::from_bits(b))
                    }
                    4 => { let v = *s.pick(&[0.0, 0.5, 1.5, 2.5, 0.25, 0.75, 1.0, 3.5, 4.5]); sign(s, v) }
                    5 => { let v = *s.pick(&[std::$t::INFINITY, std::$t::MAX, std::$t::MIN_POSITIVE, std::$t::EPSILON, $t::from_bits(1), $t::from_bits((1 << $mant) - 1), std::$t::NAN]); sign(s, v) }
                    6 => { // integers around the limits of exactness and of integer types
                        let k = *s.pick(&[$mant as i32 - 1, $mant as i32, $mant as i32 + 1, 31, 32, 15, 16, 7, 63, 62]);
                        let b = ((2.0 as $t).powi(k).to_bits() as i64 + s.upto(4) as i64 - 2) as $u;
                        sign(s, $t::from_bits(b))
                    }
                    7 => { // small magnitude exponents around one, random mantissa
                        let e = ($bias - 8 + s.upto(40)) as $u;
                        let m = s.bits($mant) as $u;
                        sign(s, $t::from_bits((e << $mant) | m))
                    }
                    _ => $t::from_bits(s.bits($bits) as $u),
                }
            }
            #[inline] fn as_i128(self) -> i128 { self as i128 }
            #[inline] fn as_f64(self) -> f64 { self as f64 }
            #[inline] fn is_nan(self) -> bool { self != self }
            #[inline] fn tag(i: u64) -> Self { (i + 1) as $t }
            el_common!($t);
        }
    )* }
}
el_float! { f32, u32, 32, 23, 127u64; f64, u64, 64, 52, 1023u64; }

/// Up to 64 lanes, kept on the stack.
#[derive(Clone, Copy)]
pub struct Lanes<T: Copy> { pub n: usize, pub a: [T; 64] }
impl<T: El> Lanes<T> {
    pub fn new(n: usize) -> Self { Lanes { n, a: [T::default(); 64] } }
    pub fn from_fn<F: FnMut(usize) -> T>(n: usize, mut f: F) -> Self { let mut l = Self::new(n); for i in 0..n { l.a[i] = f(i) } l }
}
impl<T: Copy> std::ops::Deref for Lanes<T> { type Target = [T]; fn deref(&self) -> &[T] { &self.a[..self.n] } }
impl<T: Copy> std::ops::DerefMut for Lanes<T> { fn deref_mut(&mut self) -> &mut [T] { &mut self.a[..self.n] } }

/// The number of lanes by the size of the type itself (not by what the library says).
#[inline] pub fn nl<V: Packed>() -> usize { std::mem::size_of::<V>() / std::mem::size_of::<V::Scalar>() }

/// Build a vector from lanes by copying bytes (independent of the library's own loads).
#[inline] pub fn vmk<V: Packed>(l: &[V::Scalar]) -> V {
    assert!(l.len() >= nl::<V>());
    #[allow(unused_mut)]
    let mut v = unsafe { std::ptr::read_unaligned(l.as_ptr() as *const V) };
    #[cfg(feature = "step")] crate::step::on(&mut v as *mut V as *mut u8);
    v
}
/// Read the lanes of a vector by copying bytes.
#[inline] pub fn vget<V: Packed>(v: &V) -> Lanes<V::Scalar> where V::Scalar: El {
    #[cfg(feature = "step")] crate::step::off(v as *const V as *const u8);
    let n = nl::<V>();
    let mut l = Lanes::new(n);
    unsafe { std::ptr::copy_nonoverlapping(v as *const V as *const u8, l.a.as_mut_ptr() as *mut u8, std::mem::size_of::<V>()); }
    l
}
/// Lane-wise map through bytes, to a vector of equally many lanes.
#[inline] pub fn vmap<V: Packed, U: Packed, F: FnMut(V::Scalar) -> U::Scalar>(v: V, mut f: F) -> U where V::Scalar: El, U::Scalar: El {
    let l = vget(&v);
    assert!(nl::<U>() == l.n);
    vmk::<U>(&Lanes::from_fn(l.n, |i| f(l[i])))
}

pub fn gen_lanes<T: El>(s: &mut Src, n: usize, g: fn(&mut Src) -> T) -> Lanes<T> {
    match s.upto(9) {
        0 => { let b = s.upto(200); Lanes::from_fn(n, |i| T::tag(b + i as u64)) }
        1 => { let v = g(s); let k = s.below(n); let w = g(s); Lanes::from_fn(n, |i| if i == k { w } else { v }) }
        2 => { let v = g(s); let w = g(s); let m = s.bits(n as u32); Lanes::from_fn(n, |i| if (m >> i) & 1 == 1 { w } else { v }) }
        3 => Lanes::from_fn(n, |_| T::of(s.bits(T::BITS))).fix(s, g),
        _ => Lanes::from_fn(n, |_| g(s)),
    }
}
impl<T: El> Lanes<T> {
    // Raw bits may be values the caller's generator excludes; take a generated value instead then.
    fn fix(mut self, s: &mut Src, g: fn(&mut Src) -> T) -> Self {
        if T::FLOAT { for i in 0..self.n { if self.a[i].is_nan() { self.a[i] = g(s); } } }
        self
    }
}
/// A second operand, related to the first in some lanes.
pub fn gen_rel<T: El>(s: &mut Src, a: &[T], g: fn(&mut Src) -> T) -> Lanes<T> {
    let n = a.len();
    if s.chance(1, 3) { return gen_lanes(s, n, g); }
    Lanes::from_fn(n, |i| {
        let v = match s.upto(5) {
            0 => a[i],
            1 => T::of(a[i].bits().wrapping_add(1)),
            2 => T::of(a[i].bits().wrapping_sub(1)),
            3 => T::of(a[i].bits() ^ (1u64 << s.upto(T::BITS as u64 - 1))),
            4 => T::of(!a[i].bits()),
            _ => g(s),
        };
        if v.is_nan() { g(s) } else { v }
    })
}
/// Bit-equal, or both NaN.
#[inline] pub fn same<T: El>(a: T, b: T) -> bool { a.bits() == b.bits() || (a.is_nan() && b.is_nan()) }
/// Equal as numbers, or both NaN (zeros of either sign are equal).
#[inline] pub fn same_num<T: El>(a: T, b: T) -> bool { a == b || (a.is_nan() && b.is_nan()) }
pub fn bits_of<T: El>(x: &[T]) -> Vec<u64> { x.iter().map(|v| v.bits()).collect() }
pub fn same_slice<T: El>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits()) }
/// Never a NaN.
pub fn gen_num<T: El>(s: &mut Src) -> T { let v = T::gen(s); if v.is_nan() { T::tag(s.upto(9)) } else { v } }
/// Neither NaN nor infinite.
pub fn gen_fin<T: El>(s: &mut Src) -> T { let v: T = gen_num(s); if T::FLOAT && v.as_f64().is_infinite() { T::tag(s.upto(9)) } else { v } }
pub fn trivial<T: El>(l: &[T]) -> bool { l.iter().all(|v| v.bits() == l[0].bits()) }
