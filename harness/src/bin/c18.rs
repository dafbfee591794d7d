#![allow(unused_imports)]
use fv::prelude::*;

fn red_sum<V>(s: &mut Src, c: &mut Ctx, product: bool, f: fn(V) -> V::Scalar) -> Res where V: Packed, V::Scalar: El {
    let n = nl::<V>();
    let g: fn(&mut Src) -> V::Scalar = if V::Scalar::FLOAT { if product { gen_pow2 } else { gen_exact } } else { V::Scalar::gen };
    let mut a = gen_lanes(s, n, g);
    // Keep a share of the inputs free of overflow, which checked builds may reject.
    let small = s.chance(1, 2);
    if small && !V::Scalar::FLOAT { let m = if product { 2 } else { 64 / n.min(64) as u64 + 1 }; for i in 0..n { a[i] = if product { V::Scalar::tag(a[i].bits() % m) } else { V::Scalar::of(a[i].bits() % m) }; } if product && V::Scalar::BITS == 8 { for i in 7..n { a[i] = V::Scalar::tag(0) } } }
    if V::Scalar::FLOAT { // lane order relations may have produced other values
        for i in 0..n { let x = a[i].as_f64(); if !(x.abs() <= 1e6 && (product || x == x.trunc())) { a[i] = V::Scalar::tag(0); } if product { let b = x.abs(); if !(b == 0.5 || b == 1.0 || b == 2.0) { a[i] = V::Scalar::tag(0); } } }
    }
    let op = if product { "product" } else { "sum" };
    c.note(|| format!("{} of {}", op, hex(&a)));
    c.nt(!trivial(&a));
    let want;
    let mut overflow = false;
    if V::Scalar::FLOAT {
        let w = a.iter().fold(if product { 1.0f64 } else { 0.0 }, |x, y| if product { x * y.as_f64() } else { x + y.as_f64() });
        want = if V::Scalar::BITS == 32 { V::Scalar::of((w as f32).to_bits() as u64) } else { V::Scalar::of(w.to_bits()) };
    } else {
        let mut w: i128 = if product { 1 } else { 0 };
        let lo = if V::Scalar::SIGNED { -(1i128 << (V::Scalar::BITS - 1)) } else { 0 };
        let hi = lo + (1i128 << V::Scalar::BITS) - 1;
        for y in a.iter() {
            w = if product { w.checked_mul(y.as_i128()).unwrap_or_else(|| { overflow = true; w.wrapping_mul(y.as_i128()) }) } else { w + y.as_i128() };
            if w < lo || w > hi { overflow = true; }
            w = V::Scalar::of((w as u128 as u64) & mask(V::Scalar::BITS)).as_i128();
        }
        // any order may overflow in a tree reduction: all partial sums bounded by the sum of magnitudes
        if a.iter().map(|y| y.as_i128().abs()).fold(0i128, |x, y| x.saturating_add(y)) > hi { overflow = true; }
        want = V::Scalar::of((w as u128 as u64) & mask(V::Scalar::BITS));
    }
    if overflow { c.label("overflowing"); }
    let r = match catch(|| f(vmk::<V>(&a))) {
        Ok(r) => r,
        Err(m) => { ck!(CHECKED && overflow, "panic", "{} panicked: {}", op, m); c.label("overflow panic (checked build)"); return Ok(()); }
    };
    ck!(same_num(r, want), "wrong-value", "{} of {:?} is {:?}, expected {:?}", op, &a[..], r, want);
    Ok(())
}
fn gen_pow2<T: El>(s: &mut Src) -> T { let v = *s.pick(&[1.0f64, 2.0, 0.5, -1.0, -2.0]); if T::BITS == 32 { T::of((v as f32).to_bits() as u64) } else { T::of(v.to_bits()) } }
/// Float sums and products whose value does not depend on the order: with zeroes of both signs,
/// infinities and NaN among small values, powers of two among the factors.
fn red_special<V>(s: &mut Src, c: &mut Ctx, product: bool, f: fn(V) -> V::Scalar) -> Res where V: Packed, V::Scalar: El {
    let n = nl::<V>();
    let from = |v: f64| -> V::Scalar { if V::Scalar::BITS == 32 { V::Scalar::of((v as f32).to_bits() as u64) } else { V::Scalar::of(v.to_bits()) } };
    let rare = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0]);
    let base = *s.pick(&[1.0f64, -1.0, 0.0, -0.0, 2.0]);
    let a = Lanes::from_fn(n, |_| from(match s.upto(7) { 0 | 1 | 2 => base, 3 => rare, 4 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0]), _ => *s.pick(&[1.0f64, -1.0, 2.0, -2.0, 0.5]) }));
    let op = if product { "product" } else { "sum" };
    c.note(|| format!("{} of {}", op, hex(&a)));
    c.nt(!trivial(&a) && a.iter().any(|x| { let v = x.as_f64(); v != v || v == 0.0 || v.is_infinite() }));
    let w = a.iter().fold(if product { 1.0f64 } else { 0.0 }, |x, y| if product { x * y.as_f64() } else { x + y.as_f64() });
    // order-independent: a NaN lane, both infinities, or infinity times zero give NaN in any order
    let r = f(vmk::<V>(&a)).as_f64();
    if w != w { c.label("NaN result"); ck!(r != r, "wrong-value", "{} of {:?} is {:?}, expected NaN", op, &a[..], r); }
    else { ck!(r == w, "wrong-value", "{} of {:?} is {:?}, expected {:?}", op, &a[..], r, w);
        // the sign of a zero product is the product of the signs
        if product { ck!(r.is_sign_negative() == w.is_sign_negative(), "wrong-sign", "product of {:?} is {:?}, expected {:?}", &a[..], r, w); }
        if w == 0.0 { c.label("zero result"); } else if w.is_infinite() { c.label("infinite result"); } }
    Ok(())
}
fn red_upsum<V>(s: &mut Src, c: &mut Ctx, f: fn(V) -> i64) -> Res where V: Packed, V::Scalar: El {
    let n = nl::<V>();
    let mut a = gen_lanes(s, n, if V::Scalar::FLOAT { gen_exact } else { V::Scalar::gen });
    if V::Scalar::FLOAT { for i in 0..n { if !(a[i].as_f64().abs() < 1e6) { a[i] = V::Scalar::tag(1); } } }
    if V::Scalar::BITS == 64 && !V::Scalar::FLOAT { for i in 0..n { let v = a[i].as_i128() % (1i128 << 58); a[i] = V::Scalar::of(v as i64 as u64); } }
    c.note(|| format!("sum_upcast of {}", hex(&a)));
    c.nt(!trivial(&a));
    let want: i128 = a.iter().map(|v| if V::Scalar::FLOAT { v.as_f64() as i128 } else { v.as_i128() }).sum();
    let r = f(vmk::<V>(&a));
    ck!(r as i128 == want, "wrong-value", "sum_upcast of {:?} is {}, expected {}", &a[..], r, want);
    Ok(())
}
fn red_pop<V>(s: &mut Src, c: &mut Ctx, f: fn(V) -> (usize, usize)) -> Res where V: Packed, V::Scalar: El {
    let n = nl::<V>();
    let a = gen_lanes(s, n, V::Scalar::gen);
    c.note(|| format!("count_ones of {}", hex(&a)));
    c.nt(!trivial(&a));
    let want: usize = a.iter().map(|v| v.bits().count_ones() as usize).sum();
    let (o, z) = f(vmk::<V>(&a));
    ck!(o == want, "wrong-value", "count_ones of {:?} is {}, expected {}", &a[..], o, want);
    ck!(z == n * V::Scalar::BITS as usize - want, "wrong-value", "count_zeroes of {:?} is {}, expected {}", &a[..], z, n * V::Scalar::BITS as usize - want);
    Ok(())
}
fn red_fold<V>(s: &mut Src, c: &mut Ctx) -> Res where V: Packed, V::Scalar: El {
    let n = nl::<V>();
    let a = gen_lanes(s, n, V::Scalar::gen);
    c.note(|| format!("scalar_reduce over {}", hex(&a)));
    c.nt(!trivial(&a));
    let v = vmk::<V>(&a);
    let seen: Vec<u64> = v.scalar_reduce(vec![], |mut acc: Vec<u64>, x| { acc.push(x.bits()); acc });
    ck!(seen == bits_of(&a), "wrong-value", "scalar_reduce visited {:x?}, lanes are {:x?}", seen, bits_of(&a));
    let x = gen_num::<V::Scalar>(s);
    let sp = V::splat(x);
    ck!(vget(&sp).iter().all(|l| l.bits() == x.bits()) && vget(&sp).n == n, "wrong-value", "splat({:?}) is {:?}", x, &vget(&sp)[..]);
    ck!(sp.coalesce().bits() == x.bits(), "wrong-value", "coalesce of splat({:?}) is {:?}", x, sp.coalesce());
    Ok(())
}
pub fn c18() -> Check {
    let mut k = Check::new("C18", "Lane values edge-biased; floats restricted to values whose sums/products are exact in any order. Non-trivial: lanes not all equal.", 2500, 60000);
    macro_rules! r { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("sum ", stringify!($v)), |s, c| red_sum::<$v>(s, c, false, |v| Sum::sum(&v)));
        k.add(concat!("product ", stringify!($v)), |s, c| red_sum::<$v>(s, c, true, |v| Packed::product(&v)));
        k.add(concat!("sum_upcast ", stringify!($v)), |s, c| red_upsum::<$v>(s, c, |v| UpcastSum::sum_upcast(&v)));
        k.add(concat!("fold ", stringify!($v)), |s, c| red_fold::<$v>(s, c));
    } } m::add(&mut k); } } }
    all_vecs!(r);
    macro_rules! fs { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("special sum ", stringify!($v)), |s, c| red_special::<$v>(s, c, false, |v| Sum::sum(&v)));
        k.add(concat!("special product ", stringify!($v)), |s, c| red_special::<$v>(s, c, true, |v| Packed::product(&v)));
    } } m::add(&mut k); } } }
    floats!(fs);
    macro_rules! p { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("popcnt ", stringify!($v)), |s, c| red_pop::<$v>(s, c, |v| (Popcnt::count_ones(&v), Popcnt::count_zeroes(&v))));
    } } m::add(&mut k); } } }
    ints!(p);
    k
}

fn main() { main_with(c18) }
