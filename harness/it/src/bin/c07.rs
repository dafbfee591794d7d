//! Any history of iterator operations follows a cursor over the scalar list.
use fvit::els;
use fvit::it_prelude::*;

const RULE: &str = "A case draws a source and a history of up to 14 operations (take vectors, advance, switch to scalars and back, clone, partial unroll, take the tail, finalize, query) ended by a collecting, filling, visiting, reducing or in-place operation; every result is compared with a cursor over the scalar list. Non-trivial when the collection is not uniform and at least two operations moved the cursor.";

struct Cur { pos: usize }

fn query<T: El>(src: &Source<T>, pos: usize) -> Res {
    let q = src.it.q();
    let n = src.items.len();
    let want = Q { pos, vpos: pos / src.w, slen: n, vlen: n / src.w, len: (n - pos) / src.w, width: src.w, size: (T::BITS / 8) as usize };
    ck!(q == want, "wrong-query", "queries give {:?}, expected {:?}", q, want);
    if let Some(d) = &src.default { cmp_seq("default()", &src.it.default_vec(), d)?; }
    Ok(())
}
fn history<T: Sourced>(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(KINDS.len());
    let mut slot = 0;
    let mut src = T::source(s, kind, &mut slot, 6);
    let (w, n) = (src.w, src.items.len());
    c.note(|| src.desc.clone());
    c.label(KINDS[kind]);
    let mut cur = Cur { pos: 0 };
    let mut moved = 0;
    let scalars_ok = src.it.can_scalars();
    let ops = s.below(15);
    for _ in 0..ops {
        let left = n - cur.pos;
        let before = cur.pos;
        match s.upto(8) {
            0 | 1 => {
                c.note(|| "next".into());
                let r = src.it.next();
                if left >= w {
                    ck!(r.is_some(), "missing-vector", "next() at {} of {} gave nothing", cur.pos, n);
                    cmp_seq(&format!("next() at {}", cur.pos), &r.unwrap(), &src.items[cur.pos..cur.pos + w])?;
                    cur.pos += w;
                } else { ck!(r.is_none(), "extra-vector", "next() at {} of {} gave {}", cur.pos, n, short(&r.unwrap())); }
            }
            2 => {
                let k = match s.upto(2) { 0 => s.below(left + 1), 1 => s.below(left.min(w) + 1), _ => left - s.below(left.min(2 * w) + 1) } / src.grain * src.grain;
                c.note(|| format!("advance {}", k));
                src.it.advance(k); cur.pos += k;
            },
            3 | 4 => if scalars_ok {
                let k = s.below(w + 3);
                c.note(|| format!("{} scalars", k));
                let old = std::mem::replace(&mut src.it, Box::new(Nothing));
                let (it, got) = old.scalars(k);
                src.it = it;
                for (i, g) in got.iter().enumerate() {
                    let want = src.items.get(cur.pos + i).cloned();
                    ck!(g.map(|x| x.bits()) == want.map(|x| x.bits()), "wrong-scalar", "scalar {} from {} is {:?}, expected {:?}", i, cur.pos, g, want);
                }
                cur.pos = n.min(cur.pos + k);
            },
            5 => if let Some(d) = src.it.dup() {
                c.note(|| "clone".into());
                let mut a = d;
                // use one of the two now, keep the other
                if s.chance(1, 2) { std::mem::swap(&mut a, &mut src.it); }
                let r = a.collect();
                cmp_seq("collecting a clone", &r, &src.items[cur.pos..])?;
            },
            6 => {
                let (amt, lim) = (1 + s.below(8), s.below(3));
                c.note(|| format!("unroll by {}, {} chunks", amt, lim));
                let mut got: Vec<Vec<Lanes<T>>> = vec![];
                src.it.unroll(amt, lim, &mut |ch, _, _| got.push(ch));
                for ch in got { for v in ch {
                    ck!(n - cur.pos >= w, "extra-vector", "unrolled vector at {} of {}", cur.pos, n);
                    cmp_seq(&format!("unrolled vector at {}", cur.pos), &v, &src.items[cur.pos..cur.pos + w])?;
                    cur.pos += w;
                } }
                if lim > 0 { ck!(cur.pos - before == (lim * amt).min(left / w) * w, "wrong-count", "{} chunks of {} moved from {} to {} of {}", lim, amt, before, cur.pos, n); }
            }
            7 => if left < w && s.chance(1, 2) {
                c.note(|| "end".into());
                let r = src.it.end();
                if left > 0 {
                    let mut want = src.def[..w - left].to_vec(); want.extend_from_slice(&src.items[cur.pos..]);
                    ck!(r.is_some(), "missing-tail", "end() at {} of {} gave nothing", cur.pos, n);
                    let (v, spare) = r.unwrap();
                    cmp_seq(&format!("end() at {}", cur.pos), &v, &want)?;
                    ck!(spare == w - left, "wrong-spare-count", "end() at {} of {} reports {} spare lanes, expected {}", cur.pos, n, spare, w - left);
                    cur.pos = n;
                } else { ck!(r.is_none(), "extra-tail", "end() of an exhausted iterator gave a vector"); }
            },
            _ => if s.chance(1, 6) { c.note(|| "finalize".into()); src.it.finalize(); cur.pos = n; }
        }
        if cur.pos != before { moved += 1; }
        query(&src, cur.pos)?;
    }
    c.nt(moved >= 2 && !trivial(&src.items));
    // final operation
    let rest = src.items[cur.pos..].to_vec();
    let (vs, spare) = src.vectors(cur.pos);
    match s.upto(6) {
        0 => { c.note(|| "collect".into()); cmp_seq("scalar_collect", &src.it.collect(), &rest)?; }
        1 => {
            c.note(|| "fill".into());
            let pat: Vec<T> = (0..rest.len() + s.below(2 * w)).map(|i| T::tag(150 + i as u64)).collect();
            let b = guarded(slot, &pat, Place::End);
            let p = b.as_ptr();
            src.it.fill(b);
            let now: Vec<T> = (0..pat.len()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
            let mut e = rest.clone(); e.extend_from_slice(&pat[rest.len()..]);
            cmp_seq("buffer after scalar_fill", &now, &e)?;
        }
        2 => { c.note(|| "do_each".into()); let mut v = vec![]; src.it.do_each(&mut |x| v.push(x.to_vec())); cmp_vecs("simd_do_each", &v, &vs)?; }
        3 => { c.note(|| "reduce".into()); let mut v = vec![]; src.it.reduce(0, &mut |a, x| { v.push(x.to_vec()); a + 1 }); cmp_vecs("simd_reduce", &v, &vs)?; }
        4 => { c.note(|| "collect_all".into()); cmp_seq("scalar_collect_all", &src.it.collect_all(), &vs.concat())?; }
        _ => {
            let f = LaneFn::draw(s);
            c.note(|| "for_each or vectors and end".into());
            if src.it.for_each(&mut |v| for i in 0..v.n { v[i] = f.ap(v[i]) }) {
                let want: Vec<T> = src.items.iter().enumerate().map(|(i, x)| if i < cur.pos { *x } else { f.ap(*x) }).collect();
                cmp_seq("collection after simd_for_each", &src.now(0), &want)?;
            } else {
                let mut v: Vec<Vec<T>> = vec![];
                while let Some(x) = src.it.next() { v.push(x.to_vec()); ck!(v.len() <= n + 1, "extra-vector", "next() never ends"); }
                if let Some((x, k)) = src.it.end() { v.push(x.to_vec()); ck!(k == spare, "wrong-spare-count", "end() reports {} spare lanes, expected {}", k, spare); }
                cmp_vecs("vectors and tail", &v, &vs)?;
            }
        }
    }
    query(&src, n)?;
    ck!(src.it.next().is_none() && src.it.end().is_none(), "not-exhausted", "an exhausted iterator still yields vectors");
    cmp_seq("collecting an exhausted iterator", &src.it.collect(), &[])?;
    // moved past the end, it stays exhausted
    let over = s.below(2 * w + 2) / src.grain * src.grain;
    if over > 0 {
        c.note(|| format!("advance {} past the end", over));
        c.label("past the end");
        src.it.advance(over);
        ck!(src.it.next().is_none() && src.it.end().is_none(), "not-exhausted", "an iterator {} past its end still yields vectors", over);
        if s.chance(1, 2) { let v = src.it.collect_all(); cmp_seq("collecting whole vectors past the end", &v, &[])?; }
        else { cmp_seq("collecting past the end", &src.it.collect(), &[])?; }
        let mut k = 0;
        src.it.reduce(0, &mut |a, _| { k += 1; a });
        ck!(k == 0, "not-exhausted", "an iterator {} past its end reduced {} vectors", over, k);
    }
    if src.it.can_scalars() {
        let it = src.it;
        let (_, g) = it.scalars(1);
        ck!(g[0].is_none(), "not-exhausted", "an exhausted iterator, {} past its end, still yields scalars", over);
    }
    Ok(())
}
fn main() { main_with(|| {
    let mut k = Check::new("C07", RULE, 8000, 400000);
    macro_rules! a { ($e:ident) => { k.add(concat!("history ", stringify!($e)), history::<$e>); } }
    els!(a);
    k
}) }
