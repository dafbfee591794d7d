//! Filling a buffer writes exactly the results and nothing else.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source, consumes a random part of it, and fills a guarded buffer that is long enough (with 0 to 3 vectors to spare) or too short; non-trivial when at least two results are to be written or the buffer is too short.";

fn fill<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS.len());
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 5);
    c.note(|| src.desc.clone());
    c.label(KINDS[kind]);
    let pos = if s.chance(1, 3) { src.consume(s, c) } else { 0 };
    let rest: Vec<T> = src.items[pos..].to_vec();
    let short_buf = !rest.is_empty() && s.chance(1, 3);
    let len = if short_buf { rest.len() - 1 - s.below(rest.len()) } else if s.chance(1, 2) { rest.len() + s.below(3) } else { rest.len() + s.below(3 * src.w + 1) };
    let pat: Vec<T> = (0..len).map(|i| T::tag(150 + i as u64)).collect();
    let buf = guarded(slot, &pat, Place::draw(s));
    let p = buf.as_ptr();
    c.note(|| format!("{} results into a buffer of {}", rest.len(), len));
    c.nt(rest.len() > 1 || short_buf);
    let r = catch(|| src.it.fill(buf));
    if short_buf {
        c.label("buffer too short");
        ck!(r.is_err(), "no-panic", "filling a buffer of {} with {} results did not panic", len, rest.len());
        return Ok(());
    }
    match r {
        Err(m) => return Err(Fail::new("panic", format!("scalar_fill of {} results into {} elements: {}", rest.len(), len, m))),
        Ok((q, n)) => ck!(q == p as usize && n == len, "wrong-slice", "scalar_fill returned another slice ({} elements)", n),
    }
    let now: Vec<T> = (0..len).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
    let mut e = rest.clone(); e.extend_from_slice(&pat[rest.len()..]);
    cmp_seq("buffer after scalar_fill", &now, &e)?;
    src.unchanged()
}
fn main() { main_with(|| {
    let mut k = Check::new("C03", RULE, 6000, 250000);
    macro_rules! a { ($e:ident) => { k.add(concat!("fill ", stringify!($e)), fill::<$e>); } }
    els!(a);
    k
}) }
