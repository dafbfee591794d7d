//! Zipped iterators run in lockstep and refuse mismatched collections.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws an arity, element types, collections (slices, owned vectors, strides), distinct defaults per component and an operation, or one component of a different length or lane count that must be refused; non-trivial when the collections have at least two elements and are not all uniform, or when a mismatch must be refused.";

type SI<T> = SIMDIter<&'static [T]>;
/// A component: collection, default lanes.
struct Comp<T: El> { data: Vec<T>, def: Lanes<T>, it: SI<T> }
fn comp<T: El>(s: &mut Src, n: usize, slot: usize) -> Comp<T> {
    let data = gen_data::<T>(s, n);
    let def = gen_def::<T>(s);
    let d: &'static [T] = guarded(slot, &data, Place::draw(s));
    let it = T::iter(d, vmk::<Vof<T>>(&def));
    Comp { data, def, it }
}
fn fold<T: El>(x: &[T]) -> T { let mut a = x[0]; for y in &x[1..] { a = comb(a, *y); } a }

/// What each step must deliver, from `pos` on: for each step, for each component, the lanes.
fn steps<T: El>(cs: &[Comp<T>], w: usize, pos: usize) -> (Vec<Vec<Vec<T>>>, usize) {
    let per: Vec<(Vec<Vec<T>>, usize)> = cs.iter().map(|c| vectors(&c.data, &c.def, w, pos)).collect();
    let n = per[0].0.len();
    ((0..n).map(|i| per.iter().map(|p| p.0[i].clone()).collect()).collect(), per[0].1)
}
fn cmp_steps<T: El>(what: &str, got: &[Vec<Vec<T>>], want: &[Vec<Vec<T>>]) -> Res {
    for i in 0..got.len().min(want.len()) { cmp_vecs(&format!("{}, step {}", what, i), &got[i], &want[i])?; }
    ck!(got.len() == want.len(), "wrong-count", "{}: {} steps, expected {}", what, got.len(), want.len());
    Ok(())
}

macro_rules! arity {
    ($name:ident, $mis:ident, $k:expr, $(($i:tt, $x:ident)),*) => {
        fn $name<T: El>(s: &mut Src, c: &mut Ctx) -> Res {
            let w = nl::<Vof<T>>();
            let n = gen_len(s, w, 4);
            let cs: Vec<Comp<T>> = (0..$k).map(|i| comp::<T>(s, n, i)).collect();
            c.note(|| format!("zip of {} {} collections: {}", $k, T::NAME, cs.iter().map(|x| format!("{} default {}", short(&x.data), short(&x.def))).collect::<Vec<_>>().join(", ")));
            c.nt(n > 1 && cs.iter().any(|x| !trivial(&x.data)));
            let mut z = ($(cs[$i].it.clone(),)*).zip();
            let mut pos = 0;
            // a few plain steps first
            let take = if s.chance(1, 2) { s.below(n / w + 2) } else { 0 };
            for _ in 0..take {
                match z.next() {
                    Some(($($x,)*)) => {
                        ck!(pos + w <= n, "extra-vector", "next() at {} of {} gave vectors", pos, n);
                        let got: Vec<Vec<T>> = vec![$(vget(&$x).to_vec(),)*];
                        let want: Vec<Vec<T>> = cs.iter().map(|x| x.data[pos..pos + w].to_vec()).collect();
                        cmp_vecs("next()", &got, &want)?;
                        pos += w;
                    }
                    None => ck!(pos + w > n, "missing-vector", "next() at {} of {} gave nothing", pos, n),
                }
            }
            if s.chance(1, 4) { let k = s.below(n - pos + 1); z.advance(k); pos += k; c.note(|| format!("advance {}", k)); }
            ck!(SIMDZippedIterable::scalar_pos(&z) == pos, "wrong-query", "scalar_pos is {}, expected {}", SIMDZippedIterable::scalar_pos(&z), pos);
            ck!(SIMDZippedIterable::scalar_len(&z) == n && ExactSizeIterator::len(&z) == (n - pos) / w && z.size_hint() == ((n - pos) / w, Some((n - pos) / w)) && SIMDZippedIterable::vector_len(&z) == n / w && SIMDZippedIterable::vector_pos(&z) == pos / w && SIMDZippedObject::width(&z) == w,
                "wrong-query", "scalar_len {}, len {}, vector_len {}, vector_pos {}, width {} for {} elements at {} with {} lanes",
                SIMDZippedIterable::scalar_len(&z), ExactSizeIterator::len(&z), SIMDZippedIterable::vector_len(&z), SIMDZippedIterable::vector_pos(&z), SIMDZippedObject::width(&z), n, pos, w);
            { let ($($x,)*) = SIMDZippedIterable::default(&z); let got: Vec<Vec<T>> = vec![$(vget(&$x).to_vec(),)*]; let want: Vec<Vec<T>> = cs.iter().map(|x| x.def.to_vec()).collect(); cmp_vecs("default()", &got, &want)?; }
            let (want, spare) = steps(&cs, w, pos);
            let rest: Vec<T> = (pos..n).map(|i| fold(&cs.iter().map(|x| x.data[i]).collect::<Vec<T>>())).collect();
            let lanewise = |v: &[Vec<T>]| -> Vec<T> { (0..w).map(|l| fold(&v.iter().map(|x| x[l]).collect::<Vec<T>>())).collect() };
            let op = s.below(6);
            c.note(|| format!("operation {} from {}", op, pos));
            let f = |t: ($(ident_to_vec!($x, T),)*)| -> Vof<T> { let ($($x,)*) = t; let l: Vec<Vec<T>> = vec![$(vget(&$x).to_vec(),)*]; vmk::<Vof<T>>(&Lanes::from_fn(w, |i| lanewise(&l)[i])) };
            match op {
                0 => { cmp_seq("scalar_collect of a zipped map", &z.simd_map(f).scalar_collect(), &rest)?; }
                1 => { let mut got = vec![]; z.simd_do_each(|($($x,)*)| got.push(vec![$(vget(&$x).to_vec(),)*])); cmp_steps("simd_do_each", &got, &want)?; }
                2 => { let got = z.simd_reduce(vec![], |mut a: Vec<Vec<Vec<T>>>, ($($x,)*)| { a.push(vec![$(vget(&$x).to_vec(),)*]); a }); cmp_steps("simd_reduce", &got, &want)?; }
                3 => {
                    let pat: Vec<T> = (0..rest.len() + s.below(w)).map(|i| T::tag(150 + i as u64)).collect();
                    let b = guarded(13, &pat, Place::End);
                    z.simd_map(f).scalar_fill(b);
                    let mut e = rest.clone(); e.extend_from_slice(&pat[rest.len()..]);
                    cmp_seq("buffer after scalar_fill of a zipped map", b, &e)?;
                }
                4 => {
                    let mut got = vec![];
                    while let Some(($($x,)*)) = z.next() { got.push(vec![$(vget(&$x).to_vec(),)*]); ck!(got.len() <= n + 1, "extra-vector", "next() never ends"); }
                    let e = z.end();
                    ck!(e.is_some() == (spare > 0), "wrong-tail", "end() gave {}", if e.is_some() { "vectors, but nothing is left" } else { "nothing, but elements are left" });
                    if let Some((($($x,)*), k)) = e { ck!(k == spare, "wrong-spare-count", "end() reports {} spare lanes, expected {}", k, spare); got.push(vec![$(vget(&$x).to_vec(),)*]); }
                    cmp_steps("vectors and tail", &got, &want)?;
                    ck!(z.next().is_none() && z.end().is_none() && SIMDZippedIterable::scalar_pos(&z) == n, "not-exhausted", "an exhausted zip still yields, or stands at {} of {}", SIMDZippedIterable::scalar_pos(&z), n);
                }
                _ => { SIMDZippedIterable::finalize(&mut z); ck!(SIMDZippedIterable::scalar_pos(&z) == n, "wrong-position", "after finalize the zip stands at {} of {}", SIMDZippedIterable::scalar_pos(&z), n); cmp_seq("collecting a finalized zip", &z.simd_map(f).scalar_collect(), &[])?; }
            }
            Ok(())
        }
        /// One component of another length: must be refused.
        fn $mis<T: El>(s: &mut Src, c: &mut Ctx) -> Res {
            let w = nl::<Vof<T>>();
            let n = gen_len(s, w, 4);
            let odd = s.below($k);
            let m = match s.upto(3) { 0 => n + 1 + s.below(w), 1 => n.saturating_sub(1 + s.below(w)), 2 => (n / w) * w + s.below(w), _ => gen_len(s, w, 4) };
            let m = if m == n { n + 1 } else { m };
            let cs: Vec<Comp<T>> = (0..$k).map(|i| comp::<T>(s, if i == odd { m } else { n }, i)).collect();
            c.note(|| format!("zip of {} {} collections of {} elements except component {} of {}", $k, T::NAME, n, odd, m));
            c.nt(true);
            c.label(if n / w == m / w { "refusal: same vector count" } else { "refusal: other vector count" });
            let r = catch(|| { let z = ($(cs[$i].it.clone(),)*).zip(); SIMDZippedIterable::scalar_len(&z) });
            ck!(r.is_err(), "no-panic", "zipping {} elements with {} did not panic", n, m);
            Ok(())
        }
    };
}
macro_rules! ident_to_vec { ($x:ident, $t:ident) => { Vof<$t> } }
mod z2a {
    use super::*;
    arity!(zip2, mis2, 2, (0, a), (1, b));
    pub fn add(k: &mut Check) { k.addw("zip 2 u8", 2, zip2::<u8>); k.add("refuse 2 u8", mis2::<u8>); k.addw("zip 2 i8", 2, zip2::<i8>); k.add("refuse 2 i8", mis2::<i8>); k.addw("zip 2 u16", 2, zip2::<u16>); k.add("refuse 2 u16", mis2::<u16>); k.addw("zip 2 i16", 2, zip2::<i16>); k.add("refuse 2 i16", mis2::<i16>); k.addw("zip 2 u32", 2, zip2::<u32>); k.add("refuse 2 u32", mis2::<u32>); }
}
mod z2b {
    use super::*;
    arity!(zip2, mis2, 2, (0, a), (1, b));
    pub fn add(k: &mut Check) { k.addw("zip 2 i32", 2, zip2::<i32>); k.add("refuse 2 i32", mis2::<i32>); k.addw("zip 2 u64", 2, zip2::<u64>); k.add("refuse 2 u64", mis2::<u64>); k.addw("zip 2 i64", 2, zip2::<i64>); k.add("refuse 2 i64", mis2::<i64>); k.addw("zip 2 f32", 2, zip2::<f32>); k.add("refuse 2 f32", mis2::<f32>); k.addw("zip 2 f64", 2, zip2::<f64>); k.add("refuse 2 f64", mis2::<f64>); }
}
mod z3 {
    use super::*;
    arity!(zip3, mis3, 3, (0, a), (1, b), (2, d));
    pub fn add(k: &mut Check) { k.add("zip 3 u8", zip3::<u8>); k.add("refuse 3 u8", mis3::<u8>); k.add("zip 3 i16", zip3::<i16>); k.add("refuse 3 i16", mis3::<i16>); k.add("zip 3 u32", zip3::<u32>); k.add("refuse 3 u32", mis3::<u32>); k.add("zip 3 f64", zip3::<f64>); k.add("refuse 3 f64", mis3::<f64>); }
}
mod z4 {
    use super::*;
    arity!(zip4, mis4, 4, (0, a), (1, b), (2, d), (3, e));
    pub fn add(k: &mut Check) { k.add("zip 4 u16", zip4::<u16>); k.add("refuse 4 u16", mis4::<u16>); k.add("zip 4 f32", zip4::<f32>); k.add("refuse 4 f32", mis4::<f32>); k.add("zip 4 i64", zip4::<i64>); k.add("refuse 4 i64", mis4::<i64>); }
}
mod z5 {
    use super::*;
    arity!(zip5, mis5, 5, (0, a), (1, b), (2, d), (3, e), (4, g));
    pub fn add(k: &mut Check) { k.add("zip 5 i8", zip5::<i8>); k.add("refuse 5 i8", mis5::<i8>); k.add("zip 5 u64", zip5::<u64>); k.add("refuse 5 u64", mis5::<u64>); }
}
mod z6 {
    use super::*;
    arity!(zip6, mis6, 6, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h));
    pub fn add(k: &mut Check) { k.add("zip 6 u8", zip6::<u8>); k.add("refuse 6 u8", mis6::<u8>); k.add("zip 6 f32", zip6::<f32>); k.add("refuse 6 f32", mis6::<f32>); }
}
mod z7 {
    use super::*;
    arity!(zip7, mis7, 7, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i));
    pub fn add(k: &mut Check) { k.add("zip 7 i16", zip7::<i16>); k.add("refuse 7 i16", mis7::<i16>); k.add("zip 7 f64", zip7::<f64>); k.add("refuse 7 f64", mis7::<f64>); }
}
mod z8 {
    use super::*;
    arity!(zip8, mis8, 8, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i), (7, j));
    pub fn add(k: &mut Check) { k.add("zip 8 i32", zip8::<i32>); k.add("refuse 8 i32", mis8::<i32>); k.add("zip 8 u64", zip8::<u64>); k.add("refuse 8 u64", mis8::<u64>); }
}
mod z9 {
    use super::*;
    arity!(zip9, mis9, 9, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i), (7, j), (8, k));
    pub fn add(k: &mut Check) { k.add("zip 9 u16", zip9::<u16>); k.add("refuse 9 u16", mis9::<u16>); k.add("zip 9 f32", zip9::<f32>); k.add("refuse 9 f32", mis9::<f32>); }
}
mod z10 {
    use super::*;
    arity!(zip10, mis10, 10, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i), (7, j), (8, k), (9, l));
    pub fn add(k: &mut Check) { k.add("zip 10 u8", zip10::<u8>); k.add("refuse 10 u8", mis10::<u8>); k.add("zip 10 i64", zip10::<i64>); k.add("refuse 10 i64", mis10::<i64>); }
}
mod z11 {
    use super::*;
    arity!(zip11, mis11, 11, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i), (7, j), (8, k), (9, l), (10, m));
    pub fn add(k: &mut Check) { k.add("zip 11 u32", zip11::<u32>); k.add("refuse 11 u32", mis11::<u32>); k.add("zip 11 f64", zip11::<f64>); k.add("refuse 11 f64", mis11::<f64>); }
}
mod z12 {
    use super::*;
    arity!(zip12, mis12, 12, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i), (7, j), (8, k), (9, l), (10, m), (11, o));
    pub fn add(k: &mut Check) { k.add("zip 12 i8", zip12::<i8>); k.add("refuse 12 i8", mis12::<i8>); k.add("zip 12 f32", zip12::<f32>); k.add("refuse 12 f32", mis12::<f32>); }
}
mod z13 {
    use super::*;
    arity!(zip13, mis13, 13, (0, a), (1, b), (2, d), (3, e), (4, g), (5, h), (6, i), (7, j), (8, k), (9, l), (10, m), (11, o), (12, p));
    pub fn add(k: &mut Check) { k.add("zip 13 u64", zip13::<u64>); k.add("refuse 13 u64", mis13::<u64>); }
}
mod rest {
    use super::*;
    /// Two different element types.
    fn mixed<A: El, B: El>(s: &mut Src, c: &mut Ctx) -> Res {
        let (wa, wb) = (nl::<Vof<A>>(), nl::<Vof<B>>());
        let n = gen_len(s, wa.max(wb), 3);
        let (x, y, z) = (comp::<A>(s, n, 0), comp::<B>(s, n, 1), comp::<A>(s, n, 2));
        let three = s.chance(1, 2);
        c.note(|| format!("zip of {} {} and {} {}{}", A::NAME, short(&x.data), B::NAME, short(&y.data), if three { " and a third" } else { "" }));
        if wa != wb {
            c.nt(n > 0);
            c.label("refusal: other lane count");
            if s.chance(1, 3) {
                let form = s.below(4);
                c.note(|| format!("form {} of more components", form));
                let (a, b) = (|| x.it.clone(), || y.it.clone());
                let r = catch(|| match form {
                    0 => (a(), b(), a()).zip().simd_map(|t| t.0).scalar_collect().len(),
                    1 => (a(), a(), a(), b()).zip().simd_map(|t| t.0).scalar_collect().len(),
                    2 => (a(), a(), a(), b(), a(), a(), a()).zip().simd_map(|t| t.0).scalar_collect().len(),
                    _ => (a(), a(), a(), a(), a(), a(), a(), a(), a(), a(), a(), b()).zip().simd_map(|t| t.0).scalar_collect().len(),
                });
                ck!(r.is_err() || n == 0, "no-panic", "zipping vectors of {} and {} lanes ({} elements) did not panic", wa, wb, n);
                return Ok(());
            }
            let r = catch(|| if three { ((x.it.clone(), z.it.clone(), y.it.clone()).zip().simd_map(|(a, b, _)| vcomb(a, b)).scalar_collect()).len() } else { (x.it.clone(), y.it.clone()).zip().simd_map(|(a, _)| a).scalar_collect().len() });
            ck!(r.is_err() || n == 0, "no-panic", "zipping vectors of {} and {} lanes ({} elements) did not panic", wa, wb, n);
            return Ok(());
        }
        c.nt(n > 1 && !trivial(&x.data));
        let f = |a: A, b: B| A::of(a.bits().wrapping_mul(5) ^ b.bits());
        let want: Vec<A> = (0..n).map(|i| f(x.data[i], y.data[i])).collect();
        let m = |p: Vof<A>, q: Vof<B>| -> Vof<A> { let (p, q) = (vget(&p), vget(&q)); vmk::<Vof<A>>(&Lanes::from_fn(p.n, |i| f(p[i], q[i]))) };
        if three {
            let got = (x.it.clone(), y.it.clone(), z.it.clone()).zip().simd_map(|(p, q, r)| vcomb(m(p, q), r)).scalar_collect();
            let want: Vec<A> = (0..n).map(|i| comb(want[i], z.data[i])).collect();
            return cmp_seq("scalar_collect of a mixed zip of three", &got, &want);
        }
        let got = (x.it.clone(), y.it.clone()).zip().simd_map(|(p, q)| m(p, q)).scalar_collect();
        cmp_seq("scalar_collect of a mixed zip", &got, &want)?;
        // and with the components exchanged
        let got = (y.it.clone(), x.it.clone()).zip().simd_map(|(q, p)| m(p, q)).scalar_collect();
        cmp_seq("scalar_collect of a mixed zip, exchanged", &got, &want)
    }
    /// Slices with owned vectors and strides of other collections.
    fn kinds<T: El>(s: &mut Src, c: &mut Ctx) -> Res {
        let w = nl::<Vof<T>>();
        let n = gen_len(s, w, 3);
        let x = comp::<T>(s, n, 0);
        let k = 1 + s.below(4);
        let which = s.below(k);
        let bad = s.chance(1, 4);
        let extra = s.below(k);
        let m = if bad { let q = gen_len(s, w, 3); if q == n { n + 1 } else { q } } else { n };
        let long = gen_data::<T>(s, m * k + extra);
        let def = gen_def::<T>(s);
        let d: &'static [T] = guarded(1, &long, Place::draw(s));
        let dl: &'static &'static [T] = leak(d);
        let st = dl.stride(k, &vec![vmk::<Vof<T>>(&def); k]).remove(which);
        let own = T::iter_own(x.data.clone(), vmk::<Vof<T>>(&def));
        c.note(|| format!("zip of {} {}, the same owned, and every {}th of {} from {}", T::NAME, short(&x.data), k, short(&long), which));
        c.nt(bad || n > 1);
        let f = |t: (Vof<T>, Vof<T>, Vof<T>)| vcomb(vcomb(t.0, t.1), t.2);
        let form = s.below(3);
        let r = catch(|| match form {
            0 => (x.it.clone(), own, st).zip().simd_map(|t| f(t)).scalar_collect(),
            1 => (st, x.it.clone(), own).zip().simd_map(|(r, p, q)| f((p, q, r))).scalar_collect(),
            _ => (own, st, x.it.clone()).zip().simd_map(|(p, r, q)| f((p, q, r))).scalar_collect(),
        });
        if bad {
            c.label("refusal: stride of other length");
            ck!(r.is_err(), "no-panic", "zipping {} elements with a stride of {} did not panic", n, m);
            return Ok(());
        }
        let want: Vec<T> = (0..n).map(|i| comb(comb(x.data[i], x.data[i]), long[i * k + which])).collect();
        match r { Ok(got) => cmp_seq("scalar_collect of a zip of slice, vector and stride", &got, &want), Err(m) => Err(Fail::new("panic", m)) }
    }
    pub fn add(k: &mut Check) {
        k.add("mixed u8 i8", mixed::<u8, i8>);
        k.add("mixed u16 i16", mixed::<u16, i16>);
        k.add("mixed u32 f32", mixed::<u32, f32>);
        k.add("mixed i32 f32", mixed::<i32, f32>);
        k.add("mixed u64 f64", mixed::<u64, f64>);
        k.add("mixed f64 i64", mixed::<f64, i64>);
        k.add("mixed u8 u16", mixed::<u8, u16>);
        k.add("mixed u16 u8", mixed::<u16, u8>);
        k.add("mixed i32 i16", mixed::<i32, i16>);
        k.add("mixed u64 u32", mixed::<u64, u32>);
        k.add("mixed f32 f64", mixed::<f32, f64>);
        k.add("mixed f64 f32", mixed::<f64, f32>);
        k.add("mixed u8 f64", mixed::<u8, f64>);
        k.add("mixed i64 i8", mixed::<i64, i8>);
        macro_rules! d { ($e:ident) => { k.add(concat!("kinds ", stringify!($e)), kinds::<$e>); } }
        els!(d);
    }
}
fn main() { main_with(|| {
    let mut k = Check::new("C09", RULE, 2500, 100000);
    z2a::add(&mut k); z2b::add(&mut k); z3::add(&mut k); z4::add(&mut k); z5::add(&mut k); z6::add(&mut k); z7::add(&mut k); z8::add(&mut k); z9::add(&mut k); z10::add(&mut k); z11::add(&mut k); z12::add(&mut k); z13::add(&mut k); rest::add(&mut k);
    k
}) }
