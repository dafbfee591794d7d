#![allow(unused_imports)]
use fv::prelude::*;

fn gen_off(s: &mut Src, len: usize, n: usize) -> usize {
    match s.upto(5) {
        0 | 1 => s.below(len + 1),
        2 => len.saturating_sub(n) + s.below(3),
        3 => len.saturating_sub(s.below(n + 2)),
        4 => len + s.below(2 * n + 1),
        _ => usize::max_value() - s.below(2 * n + 2),
    }
}
pub fn c24() -> Check {
    let mut k = Check::new("C24", "Collections of 0..3 vectors at guarded or misaligned addresses; offsets in range, at both sides of the last fitting one, past the end, near the maximum integer. Non-trivial: in-range transfer at a non-zero offset, or an out-of-range attempt.", 3000, 80000);
    macro_rules! ls { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("load/store ", stringify!($v)), |s, c| {
            let n = nl::<$v>();
            let len = s.below(3 * n + 2);
            let place = Place::draw(s);
            let off = gen_off(s, len, n);
            let fits = off <= len && n <= len - off;
            c.note(|| format!("{} elements at {:?}, offset {}", len, place, off));
            c.nt(!fits || off > 0);
            c.label(if fits { "fits" } else { "does not fit" });
            let data: Vec<$e> = (0..len).map(|i| <$e as El>::tag(i as u64)).collect();
            let d = guarded(0, &data, place);
            match catch(|| <$v as Packed>::load(d, off)) {
                Ok(v) => { ck!(fits, "no-panic", "load of {} lanes at {} from {} elements did not panic", n, off, len); cmp_lanes("load", &vget(&v), &data[off..off + n])?; }
                Err(m) => ck!(!fits, "panic", "load at {} from {} elements panicked: {}", off, len, m),
            }
            let val: Lanes<$e> = Lanes::from_fn(n, |i| <$e as El>::tag(100 + i as u64));
            match catch(|| Packed::store(vmk::<$v>(&val), d, off)) {
                Ok(()) => { ck!(fits, "no-panic", "store of {} lanes at {} into {} elements did not panic", n, off, len);
                    let want: Vec<$e> = (0..len).map(|i| if i >= off && i < off + n { val[i - off] } else { data[i] }).collect();
                    cmp_lanes("store", d, &want)?; }
                Err(m) => { ck!(!fits, "panic", "store at {} into {} elements panicked: {}", off, len, m); cmp_lanes("failed store", d, &data)?; }
            }
            Ok(())
        });
        k.add(concat!("unchecked load/store ", stringify!($v)), |s, c| {
            let n = nl::<$v>();
            let len = n + s.below(2 * n + 1);
            let off = s.below(len - n + 1);
            let place = Place::draw(s);
            c.note(|| format!("{} elements at {:?}, offset {}", len, place, off));
            c.nt(off > 0);
            let data: Vec<$e> = (0..len).map(|i| <$e as El>::tag(i as u64)).collect();
            let d = guarded(0, &data, place);
            let v = unsafe { <$v as Packed>::load_unchecked(d, off) };
            cmp_lanes("load_unchecked", &vget(&v), &data[off..off + n])?;
            let val: Lanes<$e> = Lanes::from_fn(n, |i| <$e as El>::tag(100 + i as u64));
            unsafe { Packed::store_unchecked(vmk::<$v>(&val), d, off) };
            let want: Vec<$e> = (0..len).map(|i| if i >= off && i < off + n { val[i - off] } else { data[i] }).collect();
            cmp_lanes("store_unchecked", d, &want)
        });
        k.add(concat!("lanes ", stringify!($v)), |s, c| {
            let n = nl::<$v>();
            let a = gen_lanes(s, n, <$e as El>::gen);
            let x = <$e as El>::gen(s);
            let i = match s.upto(3) { 0 | 1 => s.below(n), 2 => n + s.below(4), _ => usize::max_value() - s.below(3) };
            c.note(|| format!("lane {} of {} replaced by {:?}", i, hex(&a), x));
            c.nt(!trivial(&a));
            let v = vmk::<$v>(&a);
            match catch(|| Packed::extract(&v, i)) {
                Ok(y) => { ck!(i < n, "no-panic", "extract({}) of {} lanes did not panic", i, n); ck!(y.bits() == a[i].bits(), "wrong-lane", "extract({}) of {:?} is {:?}", i, &a[..], y); }
                Err(m) => ck!(i >= n, "panic", "extract({}) of {} lanes panicked: {}", i, n, m),
            }
            let mut w = v;
            match catch(|| Packed::replace(&mut w, i, x)) {
                Ok(y) => { ck!(i < n, "no-panic", "replace({}) of {} lanes did not panic", i, n); cmp_lanes("replace", &vget(&y), &Lanes::from_fn(n, |j| if j == i { x } else { a[j] }))?; }
                Err(m) => ck!(i >= n, "panic", "replace({}) of {} lanes panicked: {}", i, n, m),
            }
            cmp_lanes("the vector replaced from", &vget(&w), &a)?;
            if i < n {
                let y = unsafe { Packed::extract_unchecked(&v, i) };
                ck!(y.bits() == a[i].bits(), "wrong-lane", "extract_unchecked({}) of {:?} is {:?}", i, &a[..], y);
                let mut w = v;
                let y = unsafe { Packed::replace_unchecked(&mut w, i, x) };
                cmp_lanes("replace_unchecked", &vget(&y), &Lanes::from_fn(n, |j| if j == i { x } else { a[j] }))?;
            }
            Ok(())
        });
    } } m::add(&mut k); } } }
    all_vecs!(ls);
    // Array-like views of native collections: slices, vectors, iterators, strides.
    macro_rules! av { ($e:ident) => {
        k.addw(concat!("array views ", stringify!($e)), 4, |s, c| views::<$e>(s, c));
    } }
    av!(u8); av!(i8); av!(u16); av!(i16); av!(u32); av!(i32); av!(u64); av!(i64); av!(f32); av!(f64);
    k
}
fn check_view<A>(what: &str, a: &A, want: &[A::Scalar], off: usize) -> Res where A: SIMDArray, A::Scalar: El { check_view_in(what, a, want, want, off) }
/// `want` must be readable; nothing but `all`, of which it is the beginning, may be.
fn check_view_in<A>(what: &str, a: &A, want: &[A::Scalar], all: &[A::Scalar], off: usize) -> Res where A: SIMDArray, A::Scalar: El {
    let n = nl::<A::Vector>();
    let len = want.len();
    let fits = off <= len && n <= len - off;
    ck!(a.scalar_len() == len, "length", "{}: scalar_len {} for {} elements", what, a.scalar_len(), len);
    ck!(a.vector_len() == len / n, "length", "{}: vector_len {} for {} elements", what, a.vector_len(), len);
    ck!(a.width() == n && a.size() * 8 == <A::Scalar as El>::BITS as usize, "length", "{}: width {} size {}", what, a.width(), a.size());
    match catch(|| a.load(off)) {
        Ok(v) => { ck!(off <= all.len() && n <= all.len() - off, "no-panic", "{}: load at {} of {} elements did not panic", what, off, len); cmp_lanes(what, &vget(&v), &all[off..off + n])?; }
        Err(m) => ck!(!fits, "panic", "{}: load at {} of {} elements panicked: {}", what, off, len, m),
    }
    match catch(|| a.load_scalar(off)) {
        Ok(v) => { ck!(off < all.len(), "no-panic", "{}: load_scalar at {} of {} elements did not panic", what, off, len); ck!(v.bits() == all[off].bits(), "wrong-lane", "{}: load_scalar({}) is {:?}", what, off, v); }
        Err(m) => ck!(off >= len, "panic", "{}: load_scalar at {} of {} elements panicked: {}", what, off, len, m),
    }
    if fits { let v = unsafe { a.load_unchecked(off) }; cmp_lanes(what, &vget(&v), &want[off..off + n])?; }
    if off < len { let v = unsafe { a.load_scalar_unchecked(off) }; ck!(v.bits() == want[off].bits(), "wrong-lane", "{}: load_scalar_unchecked({}) is {:?}", what, off, v); }
    Ok(())
}
fn views<T: El>(s: &mut Src, c: &mut Ctx) -> Res {
    let n = nl::<Vof<T>>();
    let len = s.below(5 * n + 3);
    let count = 1 + s.below(6);
    let off = gen_off(s, len, n);
    let soff = gen_off(s, len / count, n);
    let which = s.below(count);
    let place = Place::draw(s);
    let data: Vec<T> = (0..len).map(|i| T::tag(i as u64)).collect();
    c.note(|| format!("{} elements, offset {}; stride {} of {}, offset {}", len, off, which, count, soff));
    c.nt(true);
    let d = guarded(0, &data, place);
    let def = <Vof<T> as Packed>::splat(T::tag(77));
    {
        let sl: &[T] = d;
        check_view("slice", &sl, &data, off)?;
        check_view("iterator", &T::iter(sl, def), &data, off)?;
        check_view("vector", &data.clone(), &data, off)?;
        let mut owned = T::iter_own(data.clone(), def);
        check_view("owned iterator", &owned, &data, off)?;
        owned.advance(s.below(len + 1));
        check_view("advanced owned iterator", &owned, &data, off)?;
        // Strides: only complete groups are promised; every view agrees with the first len/count records.
        let defs: Vec<Vof<T>> = (0..count).map(|_| def).collect();
        let st = sl.stride(count, &defs);
        let want: Vec<T> = (0..len / count).map(|i| data[i * count + which]).collect();
        // Elements of the last, incomplete group may be served or refused.
        let all: Vec<T> = data.iter().skip(which).step_by(count).cloned().collect();
        check_view_in("strided view", &st[which], &want, &all, soff)?;
    }
    let mut dm: &mut [T] = d;
    check_view("mutable slice", &dm, &data, off)?;
    let fits = off <= len && n <= len - off;
    let val: Lanes<T> = Lanes::from_fn(n, |i| T::tag(100 + i as u64));
    match catch(|| SIMDArrayMut::store(&mut dm, vmk(&val), off)) {
        Ok(()) => { ck!(fits, "no-panic", "store at {} into {} elements did not panic", off, len);
            let want: Vec<T> = (0..len).map(|i| if i >= off && i < off + n { val[i - off] } else { data[i] }).collect();
            cmp_lanes("slice store", dm, &want)?; }
        Err(m) => { ck!(!fits, "panic", "store at {} into {} elements panicked: {}", off, len, m); cmp_lanes("failed slice store", dm, &data)?; }
    }
    let before: Vec<T> = dm.to_vec();
    match catch(|| SIMDArrayMut::store_scalar(&mut dm, T::tag(50), off)) {
        Ok(()) => { ck!(off < len, "no-panic", "store_scalar at {} into {} elements did not panic", off, len);
            let want: Vec<T> = (0..len).map(|i| if i == off { T::tag(50) } else { before[i] }).collect();
            cmp_lanes("store_scalar", dm, &want)?; }
        Err(m) => ck!(off >= len, "panic", "store_scalar at {} into {} elements panicked: {}", off, len, m),
    }
    if fits {
        let before: Vec<T> = dm.to_vec();
        unsafe { SIMDArrayMut::store_unchecked(&mut dm, vmk(&val), off) };
        let want: Vec<T> = (0..len).map(|i| if i >= off && i < off + n { val[i - off] } else { before[i] }).collect();
        cmp_lanes("store_unchecked", dm, &want)?;
        unsafe { SIMDArrayMut::store_scalar_unchecked(&mut dm, T::tag(3), off) };
        ck!(dm[off].bits() == T::tag(3).bits(), "wrong-lane", "store_scalar_unchecked at {}", off);
    }
    Ok(())
}

fn main() { main_with(c24) }
