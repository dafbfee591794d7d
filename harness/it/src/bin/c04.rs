//! Collecting or filling all lanes keeps every vector whole, tail included.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source, consumes a random part of it, and collects or fills with all lanes, into a buffer that is long enough or too short; non-trivial when at least one vector is produced and the collection is not uniform.";

fn all<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS.len());
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 5);
    c.note(|| src.desc.clone());
    c.label(KINDS[kind]);
    let pos = if s.chance(1, 3) { src.consume(s, c) } else { 0 };
    let (vs, spare) = src.vectors(pos);
    let want: Vec<T> = vs.concat();
    c.nt(!want.is_empty() && !trivial(&src.items));
    if spare > 0 { c.label("partial last vector"); }
    if s.chance(1, 2) {
        c.note(|| "scalar_collect_all".to_string());
        let r = src.it.collect_all();
        cmp_seq("scalar_collect_all", &r, &want)?;
        return src.unchanged();
    }
    let short_buf = !want.is_empty() && s.chance(1, 3);
    let len = if short_buf { if s.chance(1, 2) { want.len() - 1 - s.below(want.len()) } else { want.len() - 1 - s.below(src.w) } } else { want.len() + s.below(2 * src.w + 1) };
    let pat: Vec<T> = (0..len).map(|i| T::tag(150 + i as u64)).collect();
    let buf = guarded(slot, &pat, Place::draw(s));
    let p = buf.as_ptr();
    c.note(|| format!("scalar_fill_all of {} lanes into a buffer of {}", want.len(), len));
    let r = catch(|| src.it.fill_all(buf));
    if short_buf {
        c.label("buffer too short");
        ck!(r.is_err(), "no-panic", "filling a buffer of {} with {} lanes did not panic", len, want.len());
        return Ok(());
    }
    match r {
        Err(m) => return Err(Fail::new("panic", format!("scalar_fill_all of {} lanes into {} elements: {}", want.len(), len, m))),
        Ok((q, n)) => ck!(q == p as usize && n == len, "wrong-slice", "scalar_fill_all returned another slice ({} elements)", n),
    }
    let now: Vec<T> = (0..len).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
    let mut e = want.clone(); e.extend_from_slice(&pat[want.len()..]);
    cmp_seq("buffer after scalar_fill_all", &now, &e)?;
    src.unchanged()
}
fn main() { main_with(|| {
    let mut k = Check::new("C04", RULE, 6000, 250000);
    macro_rules! a { ($e:ident) => { k.add(concat!("all lanes ", stringify!($e)), all::<$e>); } }
    els!(a);
    k
}) }
