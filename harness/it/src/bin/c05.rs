//! In-place SIMD iteration updates each element exactly once.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a mutable collection, consumes a random part, and runs a lane function that is not idempotent over the rest; non-trivial when at least two elements are updated and the collection is not uniform.";

fn in_place<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = 7 + s.below(2);
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 6);
    c.note(|| src.desc.clone());
    let pos = if s.chance(1, 2) { src.consume(s, c) } else { 0 };
    let f = LaneFn::draw(s);
    // the same iterator, cloned by the model: which vectors the closure must see
    let (vs, spare) = src.vectors(pos);
    c.note(|| format!("simd_for_each from {} with {:?}", pos, f));
    c.nt(src.items.len() > pos + 1 && !trivial(&src.items));
    if pos > 0 && spare > 0 { c.label("tail after partial consumption"); }
    let mut seen: Vec<Vec<T>> = vec![];
    src.it.for_each(&mut |v| { seen.push(v.to_vec()); for i in 0..v.n { v[i] = f.ap(v[i]); } });
    let now = src.now(0);
    let want: Vec<T> = src.items.iter().enumerate().map(|(i, x)| if i < pos { *x } else { f.ap(*x) }).collect();
    cmp_seq("collection after simd_for_each", &now, &want)?;
    // Every element was passed to the function once: the vectors seen, without spare lanes, are the rest.
    let mut flat: Vec<T> = vec![];
    for (i, v) in seen.iter().enumerate() { flat.extend_from_slice(&v[if i + 1 == vs.len() { spare } else { 0 }..]); }
    cmp_seq("lanes passed to the function", &flat, &src.items[pos..])?;
    let q = src.it.q();
    ck!(q.pos == src.items.len() && src.it.next().is_none() && src.it.end().is_none(), "not-exhausted", "after simd_for_each the iterator is at {} of {} and still yields", q.pos, src.items.len());
    Ok(())
}
fn main() { main_with(|| {
    let mut k = Check::new("C05", RULE, 6000, 300000);
    macro_rules! a { ($e:ident) => { k.add(concat!("in place ", stringify!($e)), in_place::<$e>); } }
    els!(a);
    k
}) }
