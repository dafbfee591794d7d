//! Iterator sources of every kind behind one object-safe interface, with their scalar models.
#![allow(dead_code)]
pub use fv::prelude;
use fv::prelude::*;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q { pub pos: usize, pub vpos: usize, pub slen: usize, pub vlen: usize, pub len: usize, pub width: usize, pub size: usize }

/// What a SIMD iterator can do, with vectors given as lanes.
pub trait It<T: El> {
    fn next(&mut self) -> Option<Lanes<T>>;
    fn end(&mut self) -> Option<(Lanes<T>, usize)>;
    fn advance(&mut self, n: usize);
    fn finalize(&mut self);
    fn q(&self) -> Q;
    fn default_vec(&self) -> Lanes<T>;
    fn collect(&mut self) -> Vec<T>;
    fn collect_all(&mut self) -> Vec<T>;
    fn fill(&mut self, b: &mut [T]) -> (usize, usize);
    fn fill_all(&mut self, b: &mut [T]) -> (usize, usize);
    fn do_each(&mut self, f: &mut dyn FnMut(Lanes<T>));
    fn reduce(&mut self, start: u64, f: &mut dyn FnMut(u64, Lanes<T>) -> u64) -> u64;
    /// At most `limit` chunks; the callback gets each chunk at once, with chunk_len and chunk_pos.
    fn unroll(&mut self, amt: usize, limit: usize, f: &mut dyn FnMut(Vec<Lanes<T>>, usize, usize));
    /// All chunks, read only after the last one was produced.
    fn unroll_kept(&mut self, amt: usize) -> Vec<Vec<Lanes<T>>>;
    /// Take k elements through the scalar iterator, then come back.
    fn scalars(self: Box<Self>, k: usize) -> (Box<dyn It<T>>, Vec<Option<T>>);
    fn dup(&self) -> Option<Box<dyn It<T>>>;
    fn for_each(&mut self, f: &mut dyn FnMut(&mut Lanes<T>)) -> bool;
    fn can_scalars(&self) -> bool;
    /// len() and size_hint()
    fn hint(&self) -> (usize, usize, Option<usize>);
    /// A method of the standard Iterator on a reference to the iterator; gives the vectors it yields.
    fn std_ref(&mut self, op: usize, k: usize) -> Vec<Lanes<T>>;
    /// One that consumes the iterator; gives a number and the vectors it yields.
    fn std_own(self: Box<Self>, op: usize, k: usize) -> (usize, Vec<Lanes<T>>);
}
pub const STD_REF: [&str; 9] = ["nth", "by_ref().take", "find", "position", "by_ref().skip and next", "by_ref().step_by, twice", "next", "by_ref().peekable().peek", "try_for_each"];
pub const STD_OWN: [&str; 12] = ["collect", "fold", "count", "last", "for_each", "skip and collect", "step_by and collect", "enumerate and collect", "chain", "for", "zip with a shorter range", "enumerate().len()"];
// Loops rather than adapters, and generic over as little as possible: these are instantiated often.
pub fn lanes_of<V: Packed>(c: &[V]) -> Vec<Lanes<V::Scalar>> where V::Scalar: El {
    let mut r = vec![];
    for v in c { r.push(vget(v)) }
    r
}
pub fn kept_lanes<V: Packed>(c: &[&[V]]) -> Vec<Vec<Lanes<V::Scalar>>> where V::Scalar: El {
    let mut r = vec![];
    for v in c { r.push(lanes_of(v)) }
    r
}
pub fn list<T: El>(n: usize, f: &mut dyn FnMut(usize) -> T) -> Vec<T> {
    let mut r = vec![];
    for i in 0..n { r.push(f(i)) }
    r
}
pub fn list_lanes<T: El>(n: usize, f: &mut dyn FnMut(usize) -> T) -> Lanes<T> { Lanes::from_fn(n, f) }
/// Holds the place of an iterator that is being converted.
pub struct Nothing;
impl<T: El> It<T> for Nothing {
    fn next(&mut self) -> Option<Lanes<T>> { unreachable!() }
    fn end(&mut self) -> Option<(Lanes<T>, usize)> { unreachable!() }
    fn advance(&mut self, _n: usize) { unreachable!() }
    fn finalize(&mut self) { unreachable!() }
    fn q(&self) -> Q { unreachable!() }
    fn default_vec(&self) -> Lanes<T> { unreachable!() }
    fn collect(&mut self) -> Vec<T> { unreachable!() }
    fn collect_all(&mut self) -> Vec<T> { unreachable!() }
    fn fill(&mut self, _b: &mut [T]) -> (usize, usize) { unreachable!() }
    fn fill_all(&mut self, _b: &mut [T]) -> (usize, usize) { unreachable!() }
    fn do_each(&mut self, _f: &mut dyn FnMut(Lanes<T>)) { unreachable!() }
    fn reduce(&mut self, _start: u64, _f: &mut dyn FnMut(u64, Lanes<T>) -> u64) -> u64 { unreachable!() }
    fn unroll(&mut self, _amt: usize, _limit: usize, _f: &mut dyn FnMut(Vec<Lanes<T>>, usize, usize)) { unreachable!() }
    fn unroll_kept(&mut self, _amt: usize) -> Vec<Vec<Lanes<T>>> { unreachable!() }
    fn scalars(self: Box<Self>, _k: usize) -> (Box<dyn It<T>>, Vec<Option<T>>) { unreachable!() }
    fn dup(&self) -> Option<Box<dyn It<T>>> { unreachable!() }
    fn for_each(&mut self, _f: &mut dyn FnMut(&mut Lanes<T>)) -> bool { unreachable!() }
    fn can_scalars(&self) -> bool { unreachable!() }
    fn hint(&self) -> (usize, usize, Option<usize>) { unreachable!() }
    fn std_ref(&mut self, _op: usize, _k: usize) -> Vec<Lanes<T>> { unreachable!() }
    fn std_own(self: Box<Self>, _op: usize, _k: usize) -> (usize, Vec<Lanes<T>>) { unreachable!() }
}
/// An iterator with its model: the scalar sequence and the default lanes as they appear in spare lanes.
pub struct Source<T: El> {
    pub it: Box<dyn It<T>>,
    pub items: Vec<T>,
    pub def: Lanes<T>,
    /// The value `default()` is documented to have; maps do not carry one.
    pub default: Option<Lanes<T>>,
    pub w: usize,
    pub desc: String,
    /// Memory the source was built on, with its original contents.
    pub views: Vec<(*const T, Vec<T>)>,
    /// Scalar advances are by multiples of this: the pieces one source element is mapped to.
    pub grain: usize,
}

/// Mostly a few vectors; now and then some dozens or around a power of two up to 8192; rarely (where `max_vecs` allows five or more) just
/// above 65536 elements, where a narrow counter would wrap.
pub fn gen_len(s: &mut Src, w: usize, max_vecs: usize) -> usize {
    let shape = s.upto(499);
    if shape == 499 { return s.below(40 * w + 1); }
    if shape == 497 && max_vecs >= 3 { let k = 9 + s.below(if max_vecs == 3 { 3 } else { 5 }); return (1usize << k).saturating_sub(w) + s.below(2 * w + 2); }
    if shape == 498 { return if max_vecs >= 5 && s.chance(1, 5) { (if s.chance(1, 8) { 65536 * w } else { 65536 }) - w + s.below(3 * w + 1) } else { 256 - 256.min(w) + s.below(3 * w + 1) }; }
    match shape % 5 {
        0 => s.below(2 * w + 1),
        1 => w * s.below(max_vecs + 1),
        2 => (w * s.below(max_vecs + 1)).saturating_sub(s.below(3)),
        3 => w * s.below(max_vecs) + s.below(3).min(w),
        _ => s.below(max_vecs * w + 1),
    }
}
/// Mostly distinct values; sometimes arbitrary ones.
pub fn gen_data<T: El>(s: &mut Src, n: usize) -> Vec<T> {
    if n <= 4096 && s.chance(1, 4) { return list(n, &mut |_| T::of(s.bits(T::BITS))); }
    let b = s.upto(30);
    list(n, &mut |i| T::tag(b + i as u64))
}
pub fn gen_def<T: El>(s: &mut Src) -> Lanes<T> {
    let n = nl::<Vof<T>>();
    match s.upto(3) {
        0 => { let v = T::tag(s.upto(100)); list_lanes(n, &mut |_| v) }
        1 => list_lanes(n, &mut |i| T::tag(200 + i as u64)),
        _ => list_lanes(n, &mut |_| T::of(s.bits(T::BITS))),
    }
}
/// A lane-wise function on bit patterns, one of a family.
#[derive(Clone, Copy, Debug)]
pub struct LaneFn(pub u64, pub u64);
impl LaneFn {
    pub fn draw(s: &mut Src) -> LaneFn { LaneFn(s.upto(255), 2 * s.upto(100) + 1) }
    #[inline] pub fn ap<T: El>(self, x: T) -> T { T::of((x.bits() ^ self.0).wrapping_mul(self.1)) }
    #[inline] pub fn bits(self, x: u64) -> u64 { (x ^ self.0).wrapping_mul(self.1) }
}
#[inline] pub fn comb<T: El>(a: T, b: T) -> T { T::of(a.bits().wrapping_mul(3) ^ b.bits().wrapping_add(1)) }
pub fn vcomb<V: Packed>(a: V, b: V) -> V where V::Scalar: El {
    let (x, y) = (vget(&a), vget(&b));
    vmk::<V>(&Lanes::from_fn(x.n, |i| comb(x[i], y[i])))
}
/// The same bytes as a vector of other elements.
pub fn cast<A: Packed, B: Packed>(a: A) -> B {
    assert!(std::mem::size_of::<A>() == std::mem::size_of::<B>());
    unsafe { std::mem::transmute_copy(&a) }
}
/// What `cast` makes of consecutive elements: all pieces of each, or each whole group as one (the first in the lowest bits).
pub fn resized<T: El, U: El>(x: &[T]) -> Vec<U> {
    let mut o = vec![];
    if T::BITS >= U::BITS {
        for e in x { for i in 0..T::BITS / U::BITS { o.push(U::of(e.bits() >> (i * U::BITS))) } }
    } else {
        for g in x.chunks((U::BITS / T::BITS) as usize) {
            let mut a = 0;
            for (i, e) in g.iter().enumerate() { a |= e.bits() << (i as u32 * T::BITS) }
            o.push(U::of(a))
        }
    }
    o
}
pub fn leak<X: 'static>(x: X) -> &'static X { Box::leak(Box::new(x)) }

pub fn short<T: El>(x: &[T]) -> String {
    let mut o = String::from("[");
    for (i, v) in x.iter().enumerate().take(24) { let _ = write!(o, "{}{:?}", if i > 0 { ", " } else { "" }, v); }
    if x.len() > 24 { let _ = write!(o, ", .. {} in all", x.len()); }
    o.push(']'); o
}

/// Kinds of sources. The first NARR are random access.
pub const KINDS: [&str; 16] = ["slice", "slice reference", "owned", "stride", "stride of iterator", "nested stride", "fixed stride", "mutable slice", "mutable slice reference",
    "map", "chained map", "zipped map", "zipped strides map", "adapter", "resizing map", "resizing zipped map"];

impl<T: El> Source<T> {
    /// What the memory of view i holds now.
    pub fn now(&self, i: usize) -> Vec<T> { let (p, d) = &self.views[i]; list(d.len(), &mut |k| unsafe { std::ptr::read_volatile(p.add(k)) }) }
    pub fn unchanged(&self) -> Res {
        for i in 0..self.views.len() { cmp_seq("source collection afterwards", &self.now(i), &self.views[i].1)?; }
        Ok(())
    }
    /// The vectors a full traversal from `pos` delivers, and the number of spare lanes in the last.
    pub fn vectors(&self, pos: usize) -> (Vec<Vec<T>>, usize) { vectors(&self.items, &self.def, self.w, pos) }
    /// Consume a random part of the iterator; returns the new position.
    pub fn consume(&mut self, s: &mut Src, c: &mut Ctx) -> usize {
        let mut pos = 0;
        let steps = if s.chance(1, 2) { s.below(4) } else { 0 };
        for _ in 0..steps {
            let left = self.items.len() - pos;
            match s.upto(2) {
                0 => { let k = s.below(left / self.w + 1); for _ in 0..k { let _ = self.it.next(); } pos += k * self.w; c.note(|| format!("took {} vectors", k)); }
                1 => { let k = s.below(left + 1) / self.grain * self.grain; self.it.advance(k); pos += k; c.note(|| format!("advanced {}", k)); }
                _ => if self.it.can_scalars() {
                    let k = s.below(left.min(2 * self.w) + 1);
                    let old = std::mem::replace(&mut self.it, Box::new(Nothing));
                    self.it = old.scalars(k).0;
                    pos += k; c.note(|| format!("took {} scalars", k));
                },
            }
        }
        pos
    }
}
pub fn vectors<T: El>(items: &[T], def: &[T], w: usize, pos: usize) -> (Vec<Vec<T>>, usize) {
    let mut r = vec![]; let mut p = pos;
    while p + w <= items.len() { r.push(items[p..p + w].to_vec()); p += w; }
    let mut n = 0;
    if p < items.len() {
        n = w - (items.len() - p);
        let mut v = def[..n].to_vec(); v.extend_from_slice(&items[p..]); r.push(v);
    }
    (r, n)
}
pub fn cmp_seq<T: El>(what: &str, got: &[T], want: &[T]) -> Res {
    ck!(got.len() == want.len(), "wrong-length", "{}: {} elements, expected {}: {} instead of {}", what, got.len(), want.len(), short(got), short(want));
    if let Some(i) = (0..want.len()).find(|i| got[*i].bits() != want[*i].bits()) {
        return Err(Fail::new("wrong-element", format!("{}: element {} is {:?}, expected {:?}: {} instead of {}", what, i, got[i], want[i], short(got), short(want))));
    }
    Ok(())
}
pub fn cmp_vecs<T: El>(what: &str, got: &[Vec<T>], want: &[Vec<T>]) -> Res {
    let n = got.len().min(want.len());
    for i in 0..n { cmp_seq(&format!("{}, vector {}", what, i), &got[i], &want[i])?; }
    ck!(got.len() == want.len(), "wrong-count", "{}: {} vectors, expected {}", what, got.len(), want.len());
    Ok(())
}
/// Runs the macro for every element type.
#[macro_export]
macro_rules! els { ($m:ident) => { $m!(u8); $m!(i8); $m!(u16); $m!(i16); $m!(u32); $m!(i32); $m!(u64); $m!(i64); $m!(f32); $m!(f64); } }

/// Element types with a source builder.
pub trait Sourced: El { fn source(s: &mut Src, kind: usize, slot: &mut usize, max_vecs: usize) -> Source<Self>; }
macro_rules! sourced { ($($e:ident $m:ident $o:ident)*) => { $( mod $m { use super::*; type E = $e; type O = $o; include!("build.in"); impl Sourced for E { fn source(s: &mut Src, kind: usize, slot: &mut usize, max_vecs: usize) -> Source<E> { source::<E>(s, kind, slot, max_vecs) } } } )* } }
sourced!(u8 b_u8 u32  i8 b_i8 i64  u16 b_u16 u64  i16 b_i16 i32  u32 b_u32 i64  i32 b_i32 i8  u64 b_u64 u16  i64 b_i64 u32  f32 b_f32 f64  f64 b_f64 f32);
pub mod it_prelude {
    pub use crate::*;
    pub use fv::prelude::*;
}
