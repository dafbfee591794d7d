//! Unrolled iteration delivers the same vectors in chunks.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source, consumes a random part, unrolls by 1 to 8 for a random number of chunks or to the end, and compares chunks, chunk queries and what is left; non-trivial when at least two vectors are delivered and the collection is not uniform.";

fn unroll<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS.len());
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 20);
    let (w, n) = (src.w, src.items.len());
    c.note(|| src.desc.clone());
    c.label(KINDS[kind]);
    let mut pos = if s.chance(1, 3) { src.consume(s, c) } else { 0 };
    let amt = 1 + s.below(8);
    let limit = if s.chance(1, 3) { 1 + s.below(3) } else { 1000 };
    c.note(|| format!("unroll by {} for {} chunks", amt, limit));
    let avail = (n - pos) / w;
    c.nt(avail >= 2 && !trivial(&src.items));
    let mut got: Vec<(Vec<Lanes<T>>, usize, usize)> = vec![];
    src.it.unroll(amt, limit, &mut |ch, l, p| got.push((ch, l, p)));
    let chunks = ((avail + amt - 1) / amt).min(limit);
    ck!(got.len() == chunks, "wrong-count", "{} chunks, expected {}", got.len(), chunks);
    for (i, (ch, l, p)) in got.iter().enumerate() {
        let m = amt.min(avail - i * amt);
        ck!(ch.len() == m, "wrong-chunk-length", "chunk {} has {} vectors, expected {}", i, ch.len(), m);
        for v in ch {
            cmp_seq(&format!("chunk {}", i), v, &src.items[pos..pos + w])?;
            pos += w;
        }
        ck!(*l == amt, "wrong-query", "chunk_len is {}, expected {}", l, amt);
        ck!(*p == pos / w / amt, "wrong-query", "chunk_pos after chunk {} is {}, expected {}", i, p, pos / w / amt);
    }
    ck!(src.it.q().pos == pos, "wrong-position", "the iterator stands at {}, expected {}", src.it.q().pos, pos);
    cmp_seq("the rest", &src.it.collect(), &src.items[pos..])?;
    src.unchanged()
}
/// Slices handed out earlier still hold their vectors after later ones were produced.
fn kept<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(13);
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 12);
    let (w, n) = (src.w, src.items.len());
    let amt = 1 + s.below(8);
    c.note(|| format!("{}; keep the slices of an unrolled iteration by {}", src.desc, amt));
    c.nt(n / w > amt);
    let got = src.it.unroll_kept(amt);
    let avail = n / w;
    ck!(got.len() == (avail + amt - 1) / amt, "wrong-count", "{} chunks, expected {}", got.len(), (avail + amt - 1) / amt);
    let mut pos = 0;
    for (i, ch) in got.iter().enumerate() {
        let m = amt.min(avail - i * amt);
        ck!(ch.len() == m, "wrong-chunk-length", "chunk {} has {} vectors, expected {}", i, ch.len(), m);
        for v in ch {
            if i + 1 < got.len() {
                // an earlier slice
                ck!(same_slice(&v[..], &src.items[pos..pos + w]), "kept-slice-changed", "the slice handed out as chunk {} of {} (by {}) later reads {} instead of {}", i, got.len(), amt, short(v), short(&src.items[pos..pos + w]));
            } else { cmp_seq("last chunk", v, &src.items[pos..pos + w])?; }
            pos += w;
        }
    }
    Ok(())
}
fn main() { main_with(|| {
    let mut k = Check::new("C08", RULE, 5000, 250000);
    macro_rules! a { ($e:ident) => { k.add(concat!("unroll ", stringify!($e)), unroll::<$e>); } }
    els!(a);
    macro_rules! b { ($e:ident) => { k.add(concat!("kept slices ", stringify!($e)), kept::<$e>); } }
    els!(b);
    k
}) }
