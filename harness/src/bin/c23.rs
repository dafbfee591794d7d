#![allow(unused_imports)]
use fv::prelude::*;

pub fn c23() -> Check {
    let mut k = Check::new("C23", "Four operand vectors with tagged (all distinct) or random lanes. Non-trivial: operands not uniform.", 12000, 300000);
    macro_rules! ds { ($v:ident, $e:ident) => {
        k.add(concat!("destride ", stringify!($v)), |s, c| {
            let n = nl::<$v>();
            let all: Vec<$e> = if s.chance(1, 2) { let b = s.upto(100); (0..4 * n).map(|i| <$e as El>::tag(b + i as u64)).collect() } else { let mut v = vec![]; for _ in 0..4 { v.extend_from_slice(&gen_lanes(s, n, <$e as El>::gen)); } v };
            c.note(|| format!("de-interleave {:?}", all));
            c.nt(!trivial(&all[..n]) && !trivial(&all[n..2 * n]));
            let q: Vec<$v> = (0..4).map(|i| vmk::<$v>(&all[i * n..])).collect();
            let (x, y) = Destride::destride_two(q[0], q[1]);
            for (p, r) in [x, y].iter().enumerate() {
                let want: Vec<$e> = (0..n).map(|i| all[2 * i + p]).collect();
                cmp_lanes(["destride_two first", "destride_two second"][p], &vget(r), &want)?;
            }
            let (w0, w1, w2, w3) = Destride::destride_four(q[0], q[1], q[2], q[3]);
            for (p, r) in [w0, w1, w2, w3].iter().enumerate() {
                let want: Vec<$e> = (0..n).map(|i| all[4 * i + p]).collect();
                cmp_lanes(["destride_four 1", "destride_four 2", "destride_four 3", "destride_four 4"][p], &vget(r), &want)?;
            }
            Ok(())
        });
    } }
    ds!(u8x16, u8); ds!(u8x32, u8); ds!(i8x16, i8); ds!(i8x32, i8); ds!(u16x16, u16); ds!(u16x8, u16); ds!(i16x16, i16); ds!(i16x8, i16); ds!(u32x8, u32); ds!(u32x4, u32); ds!(i32x8, i32); ds!(i32x4, i32);
    k
}

fn main() { main_with(c23) }
