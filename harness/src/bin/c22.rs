#![allow(unused_imports)]
use fv::prelude::*;

pub fn c22() -> Check {
    let mut k = Check::new("C22", "Every constructor and merge with arbitrary distinct lanes; the offset is drawn from 0..=width plus far out-of-range values. Non-trivial: the two sources differ in every lane or the operand lanes are not uniform.", 3000, 80000);
    macro_rules! pt { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("patterns ", stringify!($v)), |s, c| {
            let (h, l) = (<$e as El>::gen(s), <$e as El>::gen(s));
            let n = nl::<$v>();
            let off = s.upto(n as u64) as usize;
            c.note(|| format!("patterns of ({:?}, {:?}) offset {}", h, l, off));
            c.nt(h.bits() != l.bits());
            let f = |p: &dyn Fn(usize) -> bool| Lanes::from_fn(n, |i| if p(i) { h } else { l });
            cmp_lanes("halfs", &vget(&<$v as Pattern>::halfs(h, l)), &f(&|i| i < n / 2))?;
            cmp_lanes("interleave", &vget(&<$v as Pattern>::interleave(h, l)), &f(&|i| i % 2 == 0))?;
            cmp_lanes("partition", &vget(&<$v as Pattern>::partition(h, l, off)), &f(&|i| i < off))?;
            let m = Lanes::from_fn(n, |i| if i < off { <$e as El>::of(0) } else { <$e as El>::of(!0) });
            ck!(bits_of(&vget(&<$v as Pattern>::partition_mask(off))) == bits_of(&m), "wrong-lane", "partition_mask({}) is {:x?}", off, bits_of(&vget(&<$v as Pattern>::partition_mask(off))));
            cmp_lanes("splat", &vget(&<$v as Packed>::splat(h)), &Lanes::from_fn(n, |_| h))?;
            cmp_lanes("default", &vget(&<$v as Packed>::default()), &Lanes::from_fn(n, |_| <$e as El>::of(0)))?;
            Ok(())
        });
        k.enumerate(concat!("constants ", stringify!($v)), 1, |s, c| {
            let _ = s.upto(0); c.note(|| "ones, zeroes, width".to_string()); c.nt(true);
            let n = nl::<$v>();
            let o = vget(&<$v as Pattern>::ones());
            ck!(o.iter().all(|x| x.bits() == mask(<$e as El>::BITS)), "wrong-lane", "ones is {:x?}", bits_of(&o));
            cmp_lanes("zeroes", &vget(&<$v as Pattern>::zeroes()), &Lanes::from_fn(n, |_| <$e as El>::of(0)))?;
            ck!(<$v as Packed>::WIDTH == n && Packed::width(&<$v as Packed>::default()) == n, "width", "WIDTH is {}", <$v as Packed>::WIDTH);
            ck!(<$e as Packable>::SIZE * 8 == <$e as El>::BITS as usize, "width", "SIZE is {}", <$e as Packable>::SIZE);
            Ok(())
        });
        k.add(concat!("merges ", stringify!($v)), |s, c| {
            let n = nl::<$v>();
            let a = gen_lanes(s, n, <$e as El>::gen);
            let b = gen_rel(s, &a, <$e as El>::gen);
            let off = s.upto(n as u64) as usize;
            c.note(|| format!("merge {} with {} offset {}", hex(&a), hex(&b), off));
            c.nt(!trivial(&a) && !trivial(&b));
            let (x, y) = (vmk::<$v>(&a), vmk::<$v>(&b));
            let f = |p: &dyn Fn(usize) -> bool| Lanes::from_fn(n, |i| if p(i) { a[i] } else { b[i] });
            cmp_lanes("merge_halves", &vget(&x.merge_halves(y)), &f(&|i| i < n / 2))?;
            cmp_lanes("merge_interleaved", &vget(&x.merge_interleaved(y)), &f(&|i| i % 2 == 0))?;
            cmp_lanes("merge_partitioned", &vget(&x.merge_partitioned(y, off)), &f(&|i| i < off))?;
            Ok(())
        });
        k.add(concat!("out of range ", stringify!($v)), |s, c| {
            let n = nl::<$v>();
            let (a, b) = (gen_lanes(s, n, <$e as El>::gen), gen_lanes(s, n, <$e as El>::gen));
            let off = match s.upto(2) { 0 => n + 1 + s.below(4), 1 => s.bits(20) as usize + n + 1, _ => usize::max_value() - s.below(40) };
            c.note(|| format!("merge/partition at offset {} (width {})", off, n));
            c.nt(true);
            if let Ok(v) = catch(|| vmk::<$v>(&a).merge_partitioned(vmk::<$v>(&b), off)) { let l = vget(&v); for i in 0..n { ck!(l[i].bits() == a[i].bits() || l[i].bits() == b[i].bits(), "wrong-lane", "merge_partitioned at {}: lane {} is {:?}, from neither operand", off, i, l[i]); } c.label("no panic") } else { c.label("panic") }
            if let Ok(v) = catch(|| <$v as Pattern>::partition(a[0], b[0], off)) { let l = vget(&v); for i in 0..n { ck!(l[i].bits() == a[0].bits() || l[i].bits() == b[0].bits(), "wrong-lane", "partition at {}: lane {} is {:?}, neither value", off, i, l[i]); } }
            if let Ok(v) = catch(|| <$v as Pattern>::partition_mask(off)) { ck!(vget(&v).iter().all(|x| x.bits() == 0 || x.bits() == <$e as El>::of(!0).bits()), "wrong-lane", "partition_mask({}) is {:x?}", off, bits_of(&vget(&v))); }
            Ok(())
        });
    } } m::add(&mut k); } } }
    all_vecs!(pt);
    macro_rules! tc { ($f:ident, $e:ident) => {
        k.add(concat!("constructor ", stringify!($f)), |s, c| {
            let x = <$e as El>::gen(s);
            c.note(|| format!("{}({:?})", stringify!($f), x)); c.nt(x.bits() != 0);
            let v: $f = faster::prelude::$f(x);
            let n = nl::<Vof<$e>>();
            cmp_lanes(stringify!($f), &vget(&v), &Lanes::from_fn(n, |_| x))?;
            ck!(<$f as Packed>::WIDTH == n && std::mem::size_of::<$f>() == n * std::mem::size_of::<$e>(), "width", "{} has {} lanes", stringify!($f), <$f as Packed>::WIDTH);
            Ok(())
        });
    } }
    tc!(u8s, u8); tc!(i8s, i8); tc!(u16s, u16); tc!(i16s, i16); tc!(u32s, u32); tc!(i32s, i32); tc!(u64s, u64); tc!(i64s, i64); tc!(f32s, f32); tc!(f64s, f64);
    k
}

fn main() { main_with(c22) }
