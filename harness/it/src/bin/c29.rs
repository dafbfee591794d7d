//! SIMD iterators are iterators: lengths are exact and standard methods see the same vectors.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source of any kind and a history of up to 10 standard iterator methods on a reference to it (nth, take, find, position, skip, step_by, peek, try_for_each), mixed with vectors taken and scalar advances, len() and size_hint() compared at every point, ended by a consuming method (collect, fold, count, last, for_each, skip, step_by, enumerate, chain, for, zip) or by the tail; non-trivial when at least two of the methods moved it and the collection is not uniform.";

fn case<T: El + Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS.len());
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 8);
    let (w, n) = (src.w, src.items.len());
    c.note(|| src.desc.clone());
    c.label(KINDS[kind]);
    let mut pos = 0;
    let mut moved = 0;
    let check_len = |src: &Source<T>, pos: usize| -> Res {
        let (len, lo, hi) = src.it.hint();
        let want = (n - pos) / w;
        ck!(len == want, "wrong-len", "len() at {} of {} (vectors of {}) is {}, expected {}", pos, n, w, len, want);
        ck!(lo <= want && hi == Some(want) && lo == want, "wrong-size-hint", "size_hint() at {} of {} is ({}, {:?}), expected {}", pos, n, lo, hi, want);
        Ok(())
    };
    check_len(&src, 0)?;
    for _ in 0..s.below(11) {
        let left = (n - pos) / w;
        let before = pos;
        if s.chance(1, 5) {
            let k = s.below((n - pos).min(2 * w) + 1) / src.grain * src.grain;
            c.note(|| format!("advance {}", k));
            src.it.advance(k);
            pos += k;
        } else {
            let op = s.below(STD_REF.len());
            let k = s.below(left.min(4) + 2);
            c.note(|| format!("{} {}", STD_REF[op], k));
            let got = src.it.std_ref(op, k);
            // indices of the vectors yielded, and how many are consumed
            let (idx, used): (Vec<usize>, usize) = match op {
                0 | 2 | 4 => (if k < left { vec![k] } else { vec![] }, left.min(k + 1)),
                1 => ((0..k.min(left)).collect(), k.min(left)),
                3 | 8 => ((0..(k + 1).min(left)).collect(), (k + 1).min(left)),
                5 => (if left == 0 { vec![] } else if k + 1 < left { vec![0, k + 1] } else { vec![0] }, left.min(k + 2)),
                6 | 7 => ((0..left.min(1)).collect(), left.min(1)),
                _ => unreachable!(),
            };
            let want: Vec<Vec<T>> = idx.iter().map(|i| src.items[pos + i * w..pos + (i + 1) * w].to_vec()).collect();
            let g: Vec<Vec<T>> = got.iter().map(|v| v.to_vec()).collect();
            cmp_vecs(STD_REF[op], &g, &want)?;
            pos += used * w;
        }
        if pos != before { moved += 1; }
        check_len(&src, pos)?;
        let q = src.it.q();
        ck!(q.pos == pos, "wrong-position", "position {}, expected {} of {}", q.pos, pos, n);
    }
    let left = (n - pos) / w;
    let vec_at = |i: usize| src.items[pos + i * w..pos + (i + 1) * w].to_vec();
    if s.chance(2, 3) {
        let op = s.below(STD_OWN.len());
        let k = s.below(left.min(4) + 2);
        c.note(|| format!("{} {}", STD_OWN[op], k));
        moved += if left > 0 { 1 } else { 0 };
        c.nt(moved >= 2 && !trivial(&src.items));
        let all: Vec<Vec<T>> = (0..left).map(|i| vec_at(i)).collect();
        let zero = vget(&<Vof<T> as Packed>::default()).to_vec();
        let (wn, wv): (usize, Vec<Vec<T>>) = match op {
            0 | 4 | 9 => (0, all),
            1 | 7 => (left, all),
            2 | 11 => (left, vec![]),
            3 => (0, all.last().cloned().into_iter().collect()),
            5 => (0, all.iter().skip(k).cloned().collect()),
            6 => (0, all.iter().step_by(k + 1).cloned().collect()),
            8 => (0, all.into_iter().chain(vec![zero; k]).collect()),
            10 => (0, all.into_iter().take(k).collect()),
            _ => unreachable!(),
        };
        let it = src.it;
        let (gn, gv) = it.std_own(op, k);
        let g: Vec<Vec<T>> = gv.iter().map(|v| v.to_vec()).collect();
        ck!(gn == wn, "wrong-count", "{} {} at {} of {} gave {}, expected {}", STD_OWN[op], k, pos, n, gn, wn);
        cmp_vecs(STD_OWN[op], &g, &wv)?;
    } else {
        c.note(|| "vectors left and tail".into());
        let (vs, _) = src.vectors(pos);
        let mut v: Vec<Vec<T>> = vec![];
        while let Some(x) = src.it.next() { v.push(x.to_vec()); ck!(v.len() <= n + 1, "extra-vector", "next() never ends"); check_len(&src, (pos + v.len() * w).min(n))?; }
        if let Some((x, _)) = src.it.end() { v.push(x.to_vec()); }
        cmp_vecs("vectors left and tail", &v, &vs)?;
        check_len(&src, n)?;
        let over = s.below(2 * w + 2) / src.grain * src.grain;
        if over > 0 {
            c.note(|| format!("advance {} past the end", over));
            c.label("past the end");
            src.it.advance(over);
            check_len(&src, n)?;
            let op = s.below(STD_REF.len());
            let k = s.below(3);
            c.note(|| format!("{} {}", STD_REF[op], k));
            let got = src.it.std_ref(op, k);
            ck!(got.is_empty(), "extra-vector", "{} on an iterator {} past its end sees {} vectors", STD_REF[op], over, got.len());
            check_len(&src, n)?;
        }
        c.nt(moved >= 2 && !trivial(&src.items));
    }
    Ok(())
}
fn main() { main_with(|| {
    let mut k = Check::new("C29", RULE, 8000, 400000);
    macro_rules! a { ($e:ident) => { k.add(concat!("standard methods ", stringify!($e)), case::<$e>); } }
    els!(a);
    k
}) }
