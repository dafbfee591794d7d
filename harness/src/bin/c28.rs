//! Tracing reports every implementation site once per thread, in order of first use, on standard
//! output and in the log file; without the feature nothing is reported.
#![allow(unused_imports)]
use fv::prelude::*;
use std::io::Write;

const TRACE: bool = cfg!(feature = "trace");
const LOG: &str = match option_env!("FASTER_DEBUG_FILE") { Some(f) => f, None => "faster-debug.txt" };
const OUT: &str = "fv-stdout.txt";

/// An operation on arguments drawn from a number; returns a digest of its result.
#[derive(Clone, Copy)]
struct Op { name: &'static str, f: fn(u64) -> u64 }

fn arg<V: Packed>(seed: u64, k: u64) -> V where V::Scalar: El { vmk::<V>(&Lanes::from_fn(nl::<V>(), |i| { let r = mix(seed ^ (k << 32) ^ (i as u64).wrapping_mul(0x1234567)); if V::Scalar::FLOAT { V::Scalar::tag(r % 200) } else { V::Scalar::of(r) } })) }
fn dig<V: Packed>(v: V) -> u64 where V::Scalar: El { vget(&v).iter().fold(7, |a, x| mix(a ^ x.bits())) }

fn ops() -> Vec<Op> {
    let mut o: Vec<Op> = vec![];
    macro_rules! op { ($v:ident, $n:expr, |$a:ident, $b:ident| $e:expr) => { { fn f(s: u64) -> u64 { let ($a, $b) = (arg::<$v>(s, 1), arg::<$v>(s, 2)); let _ = (&$a, &$b); $e } o.push(Op { name: concat!($n, " ", stringify!($v)), f }); } } }
    macro_rules! every { ($v:ident, $e:ident) => {
        op!($v, "sum", |a, b| Sum::sum(&vmk::<$v>(&Lanes::from_fn(nl::<$v>(), |i| { let _ = (&a, &b); <$v as Packed>::Scalar::tag(if i < 3 { i as u64 } else { 0 }) }))).bits());
        op!($v, "merge_interleaved", |a, b| dig(a.merge_interleaved(b)));
        op!($v, "merge_halves", |a, b| dig(a.merge_halves(b)));
    } }
    all_vecs!(every);
    macro_rules! cmp { ($($v:ident)*) => { $(
        op!($v, "min", |a, b| dig(Cmp::min(&a, b)));
        op!($v, "max", |a, b| dig(Cmp::max(&a, b)));
        op!($v, "eq_mask", |a, b| dig(faster::intrin::eq::Eq::eq_mask(&a, b)));
        op!($v, "ne_mask", |a, b| dig(faster::intrin::eq::Eq::ne_mask(&a, b)));
    )* } }
    cmp!(u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16 u32x4 u32x8 i32x4 i32x8 f32x4 f32x8 f64x2 f64x4);
    macro_rules! int { ($v:ident, $e:ident) => {
        op!($v, "swap_bytes", |a, b| dig(Reendianize::swap_bytes(&a)));
        op!($v, "count_ones", |a, b| Popcnt::count_ones(&a) as u64);
    } }
    ints!(int);
    macro_rules! abs { ($($v:ident)*) => { $( op!($v, "abs", |a, b| dig(Abs::abs(&a))); )* } }
    abs!(i8x16 i8x32 i16x8 i16x16 i32x4 i32x8 f32x4 f32x8 f64x2 f64x4);
    macro_rules! sat { ($($v:ident)*) => { $( op!($v, "saturating_add", |a, b| dig(a.saturating_add(b))); op!($v, "saturating_sub", |a, b| dig(a.saturating_sub(b))); )* } }
    sat!(u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16);
    macro_rules! fl { ($($v:ident)*) => { $(
        op!($v, "floor", |a, b| dig(Round::floor(&a)));
        op!($v, "ceil", |a, b| dig(Round::ceil(&a)));
        op!($v, "trunc", |a, b| dig(Round::trunc(&a)));
        op!($v, "sqrt", |a, b| dig(faster::intrin::sqrt::Sqrt::sqrt(&Abs::abs(&a))));
        op!($v, "hadd", |a, b| dig(HAdd::hadd(&a, b)));
        op!($v, "hsub", |a, b| dig(HSub::hsub(&a, b)));
    )* } }
    fl!(f32x4 f32x8 f64x2 f64x4);
    macro_rules! hs { ($($v:ident)*) => { $( op!($v, "saturating_hadd", |a, b| dig(SaturatingHAdd::saturating_hadd(&a, b))); op!($v, "saturating_hsub", |a, b| dig(SaturatingHSub::saturating_hsub(&a, b))); )* } }
    hs!(i16x8 i16x16 u8x16);
    macro_rules! up { ($($v:ident)*) => { $( op!($v, "upcast", |a, b| { let (x, y) = a.upcast(); dig(x) ^ dig(y).rotate_left(9) }); op!($v, "sum_upcast", |a, b| a.sum_upcast() as u64); )* } }
    up!(u8x16 u8x32 i8x16 i8x32 u16x8 u16x16 i16x8 i16x16);
    o
}

/// What a run wrote: standard output and the log file.
struct Written { out: Vec<String>, log: Vec<String> }
struct Redirect { saved: i32 }
extern "C" { fn dup(fd: i32) -> i32; fn close(fd: i32) -> i32; }
impl Redirect {
    fn start() -> Redirect {
        let _ = std::io::stdout().flush();
        std::fs::File::create(OUT).unwrap();
        use std::os::unix::io::IntoRawFd;
        let fd = std::fs::OpenOptions::new().append(true).open(OUT).unwrap().into_raw_fd();
        unsafe { let saved = dup(1); sys::dup2(fd, 1); close(fd); Redirect { saved } }
    }
}
impl Drop for Redirect { fn drop(&mut self) { let _ = std::io::stdout().flush(); unsafe { sys::dup2(self.saved, 1); close(self.saved); } } }
fn lines(f: &str) -> Vec<String> { std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect() }
fn clear_log() { let _ = std::fs::remove_file(LOG); let _ = std::fs::remove_dir(LOG); }
fn recorded<R>(f: impl FnOnce() -> R) -> (Written, R) {
    let r = { let _g = Redirect::start(); f() };
    (Written { out: lines(OUT), log: if std::path::Path::new(LOG).is_file() { lines(LOG) } else { vec![] } }, r)
}
/// Runs every program in its own fresh thread, one after another or at once; gives the digests.
fn run(progs: &[Vec<(Op, u64)>], together: bool) -> Vec<Vec<u64>> {
    let bar = std::sync::Arc::new(std::sync::Barrier::new(progs.len()));
    let mut hs = vec![]; let mut r = vec![];
    for p in progs {
        let p = p.clone(); let bar = bar.clone();
        let h = std::thread::spawn(move || { if together { bar.wait(); } p.iter().map(|(o, s)| (o.f)(*s)).collect::<Vec<u64>>() });
        if together { hs.push(h) } else { r.push(h.join().expect("operation panicked")) }
    }
    for h in hs { r.push(h.join().expect("operation panicked")) }
    r
}
fn fail_lines(what: &str, got: &[String], want: &[String]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{}: {} lines, expected {}; first difference at line {}: {:?}, expected {:?}", what, got.len(), want.len(), i, got.get(i), want.get(i))
}
/// Says hardware or software, and ends with a source position in parentheses.
fn well_formed(l: &str) -> bool {
    let (i, j) = match (l.rfind('('), l.rfind(')')) { (Some(i), Some(j)) if i < j => (i, j), _ => return false };
    let pos = &l[i + 1..j];
    l[..i].contains("HARDWARE") != l[..i].contains("SOFTWARE") && match pos.rfind(':') { Some(k) => pos[..k].ends_with(".rs") && pos[k + 1..].parse::<u32>().is_ok(), None => false }
}

fn case(s: &mut Src, c: &mut Ctx, all: &'static [Op]) -> Res {
    let long = s.chance(1, 40); // every operation, many sites, and some of them again
    let nt = if long { 1 } else { 1 + if s.chance(2, 3) { s.below(4) } else { 0 } };
    let together = s.chance(1, 2);
    let blocked = s.chance(1, 8); // the log file cannot be opened
    let progs: Vec<Vec<(Op, u64)>> = if long {
        let (from, step, seed) = (s.below(all.len()), *s.pick(&[1, 7, 11, 13, 17, 19, 23, 29]), s.bits(8));
        let once = |k: usize| all[(from + k * step) % all.len()];
        let mut p: Vec<(Op, u64)> = (0..all.len()).map(|k| (once(k), seed + k as u64)).collect();
        for _ in 0..1 + s.below(60) { p.push((*s.pick(all), s.bits(8))); }
        c.label("every operation in one thread");
        vec![p]
    } else {
        let pool: Vec<Op> = (0..1 + s.below(40)).map(|_| *s.pick(all)).collect();
        (0..nt).map(|_| (0..1 + s.below(24)).map(|_| (*s.pick(&pool), s.bits(8))).collect()).collect()
    };
    c.note(|| format!("{}{} thread(s) {}: {}", if blocked { "log file not writable, " } else { "" }, nt, if together { "at once" } else { "one after another" }, progs.iter().map(|p| format!("[{}]", p.iter().map(|(o, s)| format!("{}({})", o.name, s)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" ")));
    // what each thread should report: every operation alone tells its sites
    let mut want: Vec<Vec<String>> = vec![];
    let mut alone: Vec<Vec<u64>> = vec![];
    let mut kinds: std::collections::HashMap<String, String> = Default::default();
    for p in &progs {
        let mut w: Vec<String> = vec![]; let mut al = vec![];
        for (o, seed) in p {
            clear_log();
            let (wr, d) = recorded(|| run(&[vec![(*o, *seed)]], false)[0][0]);
            al.push(d);
            ck!(TRACE || wr.out.is_empty() && !std::path::Path::new(LOG).exists(), "reported-without-tracing", "{} reported {:?}", o.name, wr.out);
            ck!(wr.log == wr.out, "log-differs", "{}", fail_lines(&format!("{} alone, log file", o.name), &wr.log, &wr.out));
            for (i, l) in wr.out.iter().enumerate() {
                ck!(well_formed(l), "malformed", "{} reported {:?}", o.name, l);
                ck!(!wr.out[..i].contains(l), "repeated", "{} alone reported {:?} twice", o.name, l);
                let (kind, site) = l.split_at(l.rfind('(').unwrap());
                let k = kinds.entry(site.to_string()).or_insert_with(|| kind.to_string());
                ck!(k == kind, "two-kinds", "{} is reported as {:?} and as {:?}", site, k, kind);
                if !w.contains(l) { w.push(l.clone()) }
            }
        }
        want.push(w); alone.push(al);
    }
    let total: usize = want.iter().map(|w| w.len()).sum();
    let distinct: std::collections::HashSet<&String> = want.iter().flat_map(|w| w.iter()).collect();
    c.nt(if TRACE { total > 2 && progs.iter().map(|p| p.len()).sum::<usize>() > 2 } else { progs.iter().map(|p| p.len()).sum::<usize>() > 2 });
    if distinct.len() < total { c.label("a site is used by several threads"); }
    if together { c.label("threads run at once"); }
    clear_log();
    if blocked { std::fs::create_dir(LOG).unwrap(); c.label("log file not writable"); }
    let before = !blocked && s.chance(1, 3);
    if before { std::fs::write(LOG, "earlier\n").unwrap(); c.label("log file exists already"); }
    let pr = &progs;
    let (wr, ds) = recorded(|| run(pr, together));
    let isdir = std::path::Path::new(LOG).is_dir();
    clear_log(); let _ = std::fs::remove_file(OUT);
    ck!(ds == alone, "result-changed", "results with sites reported before differ: {:x?}, alone {:x?}", ds, alone);
    ck!(!blocked || isdir, "log-replaced", "the directory in the log file's place is gone");
    let mut log = wr.log;
    if before { ck!(!log.is_empty() && log[0] == "earlier", "log-overwritten", "the log file's earlier content is gone: {:?}", log.get(0)); log.remove(0); }
    if nt == 1 || !together {
        let w: Vec<String> = want.iter().flat_map(|w| w.iter().cloned()).collect();
        ck!(wr.out == w, "wrong-report", "{}", fail_lines("standard output", &wr.out, &w));
        if !blocked { ck!(log == w, "log-differs", "{}", fail_lines("log file", &log, &w)); }
    } else {
        let sorted = |mut v: Vec<String>| { v.sort(); v };
        let w = sorted(want.iter().flat_map(|w| w.iter().cloned()).collect());
        let g = sorted(wr.out);
        ck!(g == w, "wrong-report", "{}", fail_lines("standard output of several threads, sorted", &g, &w));
        // lines of different threads may be torn in the file, but nothing may be missing or extra
        let size = |v: &[String]| v.iter().map(|l| l.len() + 1).sum::<usize>();
        if !blocked { ck!(size(&log) == size(&w), "log-differs", "the log file of several threads holds {} bytes, expected {}", size(&log), size(&w)); }
    }
    for w in &want { c.dig(w.len() as u64); }
    Ok(())
}
/// The places that the operations report are macro calls in the crate's source, in several files.
fn places(s: &mut Src, c: &mut Ctx, all: &[Op]) -> Res {
    let _ = s.upto(0);
    c.note(|| "every operation once".to_string());
    c.nt(true);
    let mut seen: std::collections::BTreeSet<(String, usize)> = Default::default();
    for o in all {
        clear_log();
        let (wr, _) = recorded(|| run(&[vec![(*o, 5)]], false)[0][0]);
        for l in &wr.out {
            ck!(well_formed(l), "malformed", "{} reported {:?}", o.name, l);
            let pos = &l[l.rfind('(').unwrap() + 1..l.rfind(')').unwrap()];
            let k = pos.rfind(':').unwrap();
            let (f, n) = (&pos[..k], pos[k + 1..].parse::<usize>().unwrap());
            if let Ok(t) = std::fs::read_to_string(f) { if f.starts_with('/') {
                let text = t.lines().nth(n.wrapping_sub(1));
                ck!(text.map_or(false, |x| x.contains('!') && !x.trim_start().starts_with("//")), "wrong-place", "{} reported {:?}, but that line is {:?}", o.name, l, text);
            } }
            seen.insert((f.to_string(), n));
        }
    }
    clear_log(); let _ = std::fs::remove_file(OUT);
    let files: std::collections::BTreeSet<&String> = seen.iter().map(|x| &x.0).collect();
    ck!(!TRACE || seen.len() >= 8 && files.len() >= 4, "wrong-place", "{} operations report only {} places in {} files", all.len(), seen.len(), files.len());
    c.dig(seen.len() as u64);
    Ok(())
}
fn main() { main_with(|| {
    let mut k = Check::new("C28", "A case draws 1 to 4 fresh threads, run one after another or at once, each with a sequence of 1 to 24 vector operations from a drawn pool, and whether the log file exists or cannot be opened; the sites each operation reports when it runs alone give the report expected of the sequence. Non-trivial: at least three operations, and with tracing at least three reported sites.", 60, 12000);
    let all: &'static [Op] = Box::leak(ops().into_boxed_slice());
    k.enumerate("places", 1, move |s, c| places(s, c, all));
    k.add("trace", move |s, c| case(s, c, all));
    k
}) }
