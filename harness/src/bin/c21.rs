#![allow(unused_imports)]
use fv::prelude::*;

fn bytes_of<V: Copy>(v: &V) -> Vec<u8> { unsafe { std::slice::from_raw_parts(v as *const V as *const u8, std::mem::size_of::<V>()).to_vec() } }
pub fn c21() -> Check {
    let mut k = Check::new("C21", "Random bit patterns; every reinterpretation, chains of up to 6 of them, byte swaps and byte-order conversions. Non-trivial: the bytes are not all equal.", 3000, 80000);
    macro_rules! tm { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("reinterpret ", stringify!($v)), |s, c| {
            let a = gen_lanes(s, nl::<$v>(), <$e as El>::gen);
            let v = vmk::<$v>(&a);
            let b = bytes_of(&v);
            c.note(|| format!("reinterpret {:x?}", bits_of(&a)));
            c.nt(b.iter().any(|x| *x != b[0]));
            macro_rules! one { ($m:ident) => { #[allow(unused_unsafe)] { let r = unsafe { Transmute::$m(&v) }; ck!(bytes_of(&r) == b, "wrong-bytes", "{} of {:x?} has bytes {:x?}", stringify!($m), b, bytes_of(&r)); } } }
            one!(be_u8s); one!(be_i8s); one!(be_u16s); one!(be_i16s); one!(be_u32s); one!(be_i32s); one!(be_u64s); one!(be_i64s); one!(be_f32s_unchecked); one!(be_f64s_unchecked);
            // a chain that ends in bytes
            let mut w = Transmute::be_u8s(&v);
            let n = s.upto(6);
            for _ in 0..n {
                w = match s.upto(8) {
                    0 => Transmute::be_u8s(&Transmute::be_i8s(&w)), 1 => Transmute::be_u8s(&Transmute::be_u16s(&w)), 2 => Transmute::be_u8s(&Transmute::be_i16s(&w)),
                    3 => Transmute::be_u8s(&Transmute::be_u32s(&w)), 4 => Transmute::be_u8s(&Transmute::be_i32s(&w)), 5 => Transmute::be_u8s(&Transmute::be_u64s(&w)),
                    6 => Transmute::be_u8s(&Transmute::be_i64s(&w)), 7 => Transmute::be_u8s(&unsafe { Transmute::be_f32s_unchecked(&w) }), _ => Transmute::be_u8s(&unsafe { Transmute::be_f64s_unchecked(&w) }),
                };
            }
            ck!(bytes_of(&w) == b, "wrong-bytes", "a chain of {} reinterpretations changed {:x?} to {:x?}", n, b, bytes_of(&w));
            Ok(())
        });
    } } m::add(&mut k); } } }
    all_vecs!(tm);
    macro_rules! sw { ($v:ident, $e:ident) => { { mod m { use super::*; pub fn add(k: &mut Check) {
        k.add(concat!("byte order ", stringify!($v)), |s, c| {
            let a = gen_lanes(s, nl::<$v>(), <$e as El>::gen);
            let v = vmk::<$v>(&a);
            c.note(|| format!("swap_bytes {:x?}", bits_of(&a)));
            let bs = bytes_of(&v); c.nt(bs.iter().any(|x| *x != bs[0]));
            let want: Vec<u64> = a.iter().map(|x| x.swap_bytes().bits()).collect();
            let r = vget(&Reendianize::swap_bytes(&v));
            ck!(bits_of(&r) == want, "wrong-lane", "swap_bytes of {:x?} is {:x?}", bits_of(&a), bits_of(&r));
            let back = vget(&Reendianize::swap_bytes(&vmk::<$v>(&r)));
            ck!(bits_of(&back) == bits_of(&a), "wrong-lane", "swap_bytes twice of {:x?} is {:x?}", bits_of(&a), bits_of(&back));
            for (nm, got, want) in vec![("to_le", Reendianize::to_le(&v), bits_of(&a)), ("from_le", Reendianize::from_le(&v), bits_of(&a)), ("to_be", Reendianize::to_be(&v), want.clone()), ("from_be", Reendianize::from_be(&v), want.clone())] {
                ck!(bits_of(&vget(&got)) == want, "wrong-lane", "{} of {:x?} is {:x?}", nm, bits_of(&a), bits_of(&vget(&got)));
            }
            Ok(())
        });
    } } m::add(&mut k); } } }
    ints!(sw);
    k
}

fn main() { main_with(c21) }
