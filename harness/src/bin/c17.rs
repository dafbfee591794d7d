#![allow(unused_imports)]
use fv::prelude::*;

fn horiz<V>(s: &mut Src, c: &mut Ctx, op: &str, sub: bool, sat: bool, f: fn(V, V) -> V) -> Res where V: Packed, V::Scalar: El {
    let n = nl::<V>();
    let g: fn(&mut Src) -> V::Scalar = if V::Scalar::FLOAT { gen_exact } else { V::Scalar::gen };
    let a = gen_lanes(s, n, g);
    let b = gen_rel(s, &a, g);
    let b = if V::Scalar::FLOAT { Lanes::from_fn(n, |i| if b[i].as_f64().abs() < 1e6 && b[i].as_f64() == b[i].as_f64().trunc() { b[i] } else { V::Scalar::tag(i as u64) }) } else { b };
    c.note(|| format!("{} a={} b={}", op, hex(&a), hex(&b)));
    c.nt(!trivial(&a) && !trivial(&b));
    let mut want = Lanes::new(n);
    let mut overflow = false;
    for i in 0..n {
        let src = if i % 2 == 0 { &a } else { &b };
        let (x, y) = (src[i & !1], src[(i & !1) + 1]);
        want[i] = if V::Scalar::FLOAT {
            let w = if sub { x.as_f64() - y.as_f64() } else { x.as_f64() + y.as_f64() };
            if V::Scalar::BITS == 32 { V::Scalar::of((w as f32).to_bits() as u64) } else { V::Scalar::of(w.to_bits()) }
        } else {
            let w = if sub { x.as_i128() - y.as_i128() } else { x.as_i128() + y.as_i128() };
            if clamp::<V::Scalar>(w) != (w as u128 as u64) & mask(V::Scalar::BITS) || w != V::Scalar::of((w as u128 as u64) & mask(V::Scalar::BITS)).as_i128() { overflow = true; }
            V::Scalar::of(if sat { clamp::<V::Scalar>(w) } else { (w as u128 as u64) & mask(V::Scalar::BITS) })
        };
    }
    if overflow { c.label("overflowing lane"); }
    let r = catch(|| f(vmk::<V>(&a), vmk::<V>(&b)));
    let r = match r {
        Ok(v) => vget(&v),
        Err(m) => {
            ck!(CHECKED && overflow && !sat, "panic", "{} panicked: {}", op, m);
            c.label("overflow panic (checked build)");
            return Ok(());
        }
    };
    for i in 0..n {
        ck!(same_num(r[i], want[i]), "wrong-lane", "{}: lane {} is {:?}, expected {:?} (result {:?}, expected {:?})", op, i, r[i], want[i], &r[..], &want[..]);
    }
    Ok(())
}
pub fn c17() -> Check {
    let mut k = Check::new("C17", "Both operands: edge-biased, tagged, related lanes; floats integer-valued so results are exact. Non-trivial: neither operand uniform.", 4000, 100000);
    macro_rules! h { ($v:ident, $e:ident) => {
        k.add(concat!("hadd ", stringify!($v)), |s, c| horiz::<$v>(s, c, "hadd", false, false, |a, b| HAdd::hadd(&a, b)));
        k.add(concat!("hsub ", stringify!($v)), |s, c| horiz::<$v>(s, c, "hsub", true, false, |a, b| HSub::hsub(&a, b)));
    } }
    all_vecs!(h);
    macro_rules! hs { ($v:ident, $e:ident) => {
        k.add(concat!("saturating_hadd ", stringify!($v)), |s, c| horiz::<$v>(s, c, "saturating_hadd", false, true, |a, b| SaturatingHAdd::saturating_hadd(&a, b)));
        k.add(concat!("saturating_hsub ", stringify!($v)), |s, c| horiz::<$v>(s, c, "saturating_hsub", true, true, |a, b| SaturatingHSub::saturating_hsub(&a, b)));
    } }
    ints!(hs);
    k
}

fn main() { main_with(c17) }
