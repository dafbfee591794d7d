//! Reductions and visits see every element once; spare lanes hold the default.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source and a default vector with distinct or uniform lanes, consumes a random part, and records every argument of the visiting or reducing closure; non-trivial when at least one vector is visited and the collection is not uniform.";

fn visit<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS.len());
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 6);
    c.note(|| src.desc.clone());
    c.label(KINDS[kind]);
    let pos = if s.chance(1, 3) { src.consume(s, c) } else { 0 };
    let (vs, spare) = src.vectors(pos);
    if spare > 0 { c.label("partial last vector"); }
    c.nt(!vs.is_empty() && !trivial(&src.items));
    let mut seen: Vec<Vec<T>> = vec![];
    if s.chance(1, 2) {
        c.note(|| format!("simd_do_each from {}", pos));
        src.it.do_each(&mut |v| seen.push(v.to_vec()));
        cmp_vecs("simd_do_each", &seen, &vs)?;
    } else {
        c.note(|| format!("simd_reduce from {}", pos));
        let step = |a: u64, v: &[T]| v.iter().fold(a.rotate_left(1) ^ 1, |a, x| (a ^ x.bits()).wrapping_mul(0x100000001b3));
        let r = src.it.reduce(7, &mut |a, v| { seen.push(v.to_vec()); step(a, &v) });
        cmp_vecs("simd_reduce", &seen, &vs)?;
        let want = vs.iter().fold(7u64, |a, v| step(a, v));
        ck!(r == want, "wrong-accumulator", "simd_reduce returned {:x}, expected {:x}", r, want);
    }
    src.unchanged()
}

/// Folding with a neutral default gives the scalar fold, through real vector operations.
fn folds(s: &mut Src, c: &mut Ctx) -> Res {
    let n = gen_len(s, 32, 4);
    let p = Place::draw(s);
    c.nt(n > 1);
    match s.upto(4) {
        0 => {
            let d: Vec<u32> = (0..n).map(|_| s.bits(32) as u32).collect();
            c.note(|| format!("wrapping sum of {}", short(&d)));
            let m: &[u32] = guarded(0, &d, p);
            let r = m.simd_iter(u32s(0)).simd_reduce(u32s(0), |a, v| a + v);
            let got = r.scalar_reduce(0u32, |a, x| a.wrapping_add(x));
            let want = d.iter().fold(0u32, |a, x| a.wrapping_add(*x));
            ck!(got == want, "wrong-fold", "sum is {}, expected {}", got, want);
        }
        1 => {
            let d: Vec<u8> = (0..n).map(|_| s.bits(8) as u8).collect();
            c.note(|| format!("maximum of {}", short(&d)));
            let m: &[u8] = guarded(0, &d, p);
            let r = m.simd_iter(u8s(0)).simd_reduce(u8s(0), |a, v| a.max(v));
            let got = r.scalar_reduce(0u8, |a, x| a.max(x));
            let want = d.iter().fold(0u8, |a, x| a.max(*x));
            ck!(got == want, "wrong-fold", "maximum is {}, expected {}", got, want);
        }
        2 => {
            let d: Vec<i16> = (0..n).map(|_| s.bits(16) as i16).collect();
            c.note(|| format!("minimum of {}", short(&d)));
            let m: &[i16] = guarded(0, &d, p);
            let r = m.simd_iter(i16s(32767)).simd_reduce(i16s(32767), |a, v| a.min(v));
            let got = r.scalar_reduce(32767i16, |a, x| a.min(x));
            let want = d.iter().fold(32767i16, |a, x| a.min(*x));
            ck!(got == want, "wrong-fold", "minimum is {}, expected {}", got, want);
        }
        3 => {
            let d: Vec<f64> = (0..n).map(|_| s.upto(2000) as f64 - 1000.0).collect();
            c.note(|| format!("exact sum of {}", short(&d)));
            let m: &[f64] = guarded(0, &d, p);
            let r = m.simd_iter(f64s(0.0)).simd_reduce(f64s(0.0), |a, v| a + v);
            let want: f64 = d.iter().sum();
            ck!(Sum::sum(&r) == want, "wrong-fold", "sum is {}, expected {}", Sum::sum(&r), want);
        }
        _ => {
            let d: Vec<i64> = (0..n).map(|_| s.bits(64) as i64).collect();
            c.note(|| format!("exclusive or of {}", short(&d)));
            let m: &[i64] = guarded(0, &d, p);
            let r = m.simd_iter(i64s(0)).simd_reduce(i64s(0), |a, v| a ^ v);
            let got = r.scalar_reduce(0i64, |a, x| a ^ x);
            let want = d.iter().fold(0i64, |a, x| a ^ *x);
            ck!(got == want, "wrong-fold", "exclusive or is {}, expected {}", got, want);
        }
    }
    Ok(())
}
fn main() { main_with(|| {
    let mut k = Check::new("C06", RULE, 6000, 300000);
    macro_rules! a { ($e:ident) => { k.add(concat!("visit ", stringify!($e)), visit::<$e>); } }
    els!(a);
    k.addw("folds", 2, folds);
    k
}) }
