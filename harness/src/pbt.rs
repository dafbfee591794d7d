//! A small property-based testing engine: choice-sequence generation, shrinking on the choice
//! sequence, crash and hang containment in forked children, evidence counters.
//!
//! A case is a function of a sequence of bounded integers (`Src`). During exploration the
//! integers come from a SplitMix generator seeded by (seed, property, variant, case number);
//! during shrinking and replay they come from a stored list, padded with zeros.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic;

// ------------------------------------------------------------------ libc by hand
pub mod sys {
    use std::os::raw::{c_int, c_long, c_void};
    extern "C" {
        pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
        pub fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
        pub fn fork() -> c_int;
        pub fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
        pub fn _exit(c: c_int) -> !;
        pub fn setitimer(which: c_int, new: *const [c_long; 4], old: *mut [c_long; 4]) -> c_int;
        pub fn dup2(a: c_int, b: c_int) -> c_int;
        pub fn open(p: *const u8, f: c_int, ...) -> c_int;
        pub fn setrlimit(w: c_int, l: *const [u64; 2]) -> c_int;
    }
    pub const ITIMER_PROF: c_int = 2;
    /// Map read-write anonymous memory.
    pub unsafe fn map(len: usize, shared: bool) -> *mut u8 {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x20 | if shared { 1 } else { 2 }, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p as *mut u8
    }
}

// ------------------------------------------------------------------ allocator with guard zones
/// Puts guard zones around every heap block, fills fresh blocks with a poison byte, and records
/// damage to a guard zone instead of aborting.
pub struct GuardAlloc;
const ZONE: usize = 64;
const CANARY: u8 = 0x9D;
pub const POISON: u8 = 0xA7;
const FREED: u8 = 0xF9;
pub static mut HEAP_DAMAGE: usize = 0;
static LIVE_BLOCKS: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
static LIVE_BYTES: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
/// Heap blocks in use and their bytes.
pub fn live() -> (isize, isize) { use std::sync::atomic::Ordering::Relaxed; (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed)) }
fn count_block(n: isize, bytes: usize) { use std::sync::atomic::Ordering::Relaxed; LIVE_BLOCKS.fetch_add(n, Relaxed); LIVE_BYTES.fetch_add(n * bytes as isize, Relaxed); }

#[cfg(not(feature = "sanitize"))]
unsafe impl std::alloc::GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        use std::alloc::{Layout, System};
        let al = if l.align() > ZONE { l.align() } else { ZONE };
        let big = match l.size().checked_add(2 * al) { Some(b) => b, None => return std::ptr::null_mut() };
        let p = System.alloc(Layout::from_size_align_unchecked(big, al));
        if p.is_null() { return p; }
        std::ptr::write_bytes(p, CANARY, al);
        std::ptr::write_bytes(p.add(al), POISON, l.size());
        std::ptr::write_bytes(p.add(al + l.size()), CANARY, ZONE);
        count_block(1, l.size());
        p.add(al)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        use std::alloc::{Layout, System};
        let al = if l.align() > ZONE { l.align() } else { ZONE };
        let mut whole = true;
        for i in 0..ZONE { whole &= *p.sub(i + 1) == CANARY; }
        // freed already, or not a block at all: leave it alone
        if !whole && (0..32).all(|i| *p.sub(i + 1) == FREED) { HEAP_DAMAGE += 1; return; }
        for i in 0..ZONE { whole &= *p.add(l.size() + i) == CANARY; }
        if !whole { HEAP_DAMAGE += 1; }
        count_block(-1, l.size());
        std::ptr::write_bytes(p.sub(ZONE), FREED, ZONE + l.size());
        System.dealloc(p.sub(al), Layout::from_size_align_unchecked(l.size() + 2 * al, al));
    }
}
#[cfg(feature = "sanitize")]
unsafe impl std::alloc::GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, POISON, l.size()); count_block(1, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { count_block(-1, l.size()); std::alloc::System.dealloc(p, l) }
}

// ------------------------------------------------------------------ choice source
pub const MAXREC: usize = 1 << 16;
#[repr(C)]
pub struct Shared {
    pub len: usize,
    pub variant: usize,
    pub case: u64,
    pub started: u64,
    pub msg_len: usize,
    pub sig_len: usize,
    pub msg: [u8; 16384],
    pub sig: [u8; 512],
    pub vals: [u64; MAXREC],
}

pub struct Src {
    fixed: Vec<u64>,
    use_rng: bool,
    rng: u64,
    pos: usize,
    sh: *mut Shared,
    pub hash: u64,
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    /// A number in 0..=max; smaller means simpler.
    #[inline]
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.fixed.len() {
            let f = self.fixed[self.pos];
            if f > max { if max == u64::max_value() { f } else { f % (max + 1) } } else { f }
        } else if self.use_rng {
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let r = mix(self.rng);
            if max == u64::max_value() { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
        } else { 0 };
        unsafe {
            if self.pos < MAXREC { (*self.sh).vals[self.pos] = v; (*self.sh).len = self.pos + 1; }
        }
        self.pos += 1;
        self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
        v
    }
    #[inline] pub fn below(&mut self, n: usize) -> usize { self.upto(n as u64 - 1) as usize }
    #[inline] pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.upto((hi - lo) as u64) as usize }
    /// True in about num of den cases; zero (simplest) is false.
    #[inline] pub fn chance(&mut self, num: u64, den: u64) -> bool { self.upto(den - 1) >= den - num }
    #[inline] pub fn bits(&mut self, n: u32) -> u64 { if n >= 64 { self.upto(u64::max_value()) } else { self.upto((1u64 << n) - 1) } }
    #[inline] pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

// ------------------------------------------------------------------ case context
pub struct Fail { pub sig: String, pub msg: String }
pub type Res = Result<(), Fail>;
impl Fail {
    pub fn new(sig: &str, msg: String) -> Fail { Fail { sig: sig.to_string(), msg } }
}

pub struct Ctx {
    pub verbose: bool,
    pub nontrivial: bool,
    pub desc: String,
    pub digest: u64,
    pub labels: Vec<&'static str>,
}
impl Ctx {
    #[inline] pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f(); if !self.desc.is_empty() { self.desc.push_str("; "); } self.desc.push_str(&s);
            // Written through at once: the case may crash before it returns.
            unsafe { if !DESC_OUT.is_null() { (*DESC_OUT).msg_len = put(&mut (*DESC_OUT).msg, &self.desc); } }
        }
    }
    #[inline] pub fn nt(&mut self, c: bool) { if c { self.nontrivial = true; } }
    #[inline] pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l) } }
    #[inline] pub fn dig(&mut self, v: u64) { self.digest = (self.digest.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15); }
}

/// Fail the case unless the condition holds. `sig` names the kind of failure.
#[macro_export]
macro_rules! ck {
    ($c:expr, $sig:expr, $($fmt:tt)*) => {
        if !$c { return Err($crate::pbt::Fail::new($sig, format!($($fmt)*))); }
    };
}

pub type CaseFn = Box<dyn Fn(&mut Src, &mut Ctx) -> Res>;
pub struct Variant {
    pub name: String,
    pub f: CaseFn,
    /// Number of cases to enumerate (first choice = case number); 0: random cases.
    pub exhaustive: u64,
    /// Number of blocks of inputs: all of them in a thorough run, a few random ones in a quick run.
    pub blocks: u64,
    pub weight: u64,
}
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub variants: Vec<Variant>,
    /// Random cases per unit of weight in a quick run on one build.
    pub quick: u64,
    pub thorough: u64,
}
impl Check {
    pub fn new(id: &'static str, rule: &'static str, quick: u64, thorough: u64) -> Check {
        Check { id, rule, variants: vec![], quick, thorough }
    }
    pub fn add<F: Fn(&mut Src, &mut Ctx) -> Res + 'static>(&mut self, name: &str, f: F) {
        self.variants.push(Variant { name: name.to_string(), f: Box::new(f), exhaustive: 0, blocks: 0, weight: 1 });
    }
    pub fn addw<F: Fn(&mut Src, &mut Ctx) -> Res + 'static>(&mut self, name: &str, weight: u64, f: F) {
        self.variants.push(Variant { name: name.to_string(), f: Box::new(f), exhaustive: 0, blocks: 0, weight });
    }
    pub fn enumerate<F: Fn(&mut Src, &mut Ctx) -> Res + 'static>(&mut self, name: &str, n: u64, f: F) {
        self.variants.push(Variant { name: name.to_string(), f: Box::new(f), exhaustive: n, blocks: 0, weight: 1 });
    }
    /// The first choice is the block number.
    pub fn sweep<F: Fn(&mut Src, &mut Ctx) -> Res + 'static>(&mut self, name: &str, blocks: u64, f: F) {
        self.variants.push(Variant { name: name.to_string(), f: Box::new(f), exhaustive: 0, blocks, weight: 1 });
    }
}

// ------------------------------------------------------------------ running one case
static mut LAST_PANIC: Option<String> = None;

fn set_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".to_string() };
        unsafe { LAST_PANIC = Some(format!("panicked at {}: {}", loc, m)); }
    }));
}
pub fn forget_panic() { unsafe { LAST_PANIC = None; } }
pub fn last_panic() -> String { unsafe { LAST_PANIC.clone().unwrap_or_default() } }

/// Run `f`, catching a panic. Err carries the panic message.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) { Ok(v) => Ok(v), Err(_) => Err(last_panic()) }
}

const CASE_CPU_SECS: i64 = 20;
fn arm() { unsafe { sys::setitimer(sys::ITIMER_PROF, &[0, 0, CASE_CPU_SECS, 0], std::ptr::null_mut()); } }

unsafe fn put(dst: &mut [u8], s: &str) -> usize {
    let b = s.as_bytes(); let n = b.len().min(dst.len()); dst[..n].copy_from_slice(&b[..n]); n
}

fn new_ctx(verbose: bool) -> Ctx { Ctx { verbose, nontrivial: false, desc: String::new(), digest: 0, labels: vec![] } }

fn run_one(v: &Variant, s: &mut Src, ctx: &mut Ctx) -> Res {
    unsafe { HEAP_DAMAGE = 0; }
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (v.f)(s, ctx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => { let m = last_panic(); Err(Fail::new("panic", format!("unexpected panic: {}", m))) }
    };
    let damage = crate::mem::check_guards();
    let r = match (r, damage) { (Ok(()), Some(m)) => Err(Fail::new("stray-write", m)), (r, _) => r };
    let r = if r.is_ok() && unsafe { HEAP_DAMAGE } > 0 {
        Err(Fail::new("heap-damage", "a guard zone around a heap block was overwritten".to_string()))
    } else { r };
    r
}

pub fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }

pub struct Opts {
    pub check: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub shard: u64,
    pub shards: u64,
    pub out: String,
    pub build: String,
    pub known: Vec<String>,
    pub max_secs: f64,
    pub digests: Option<String>,
    pub only: Option<String>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"'); o
}

fn mk_src(sh: *mut Shared, fixed: Vec<u64>, rng: Option<u64>) -> Src {
    unsafe { (*sh).len = 0; (*sh).msg_len = 0; (*sh).sig_len = 0; }
    Src { fixed, use_rng: rng.is_some(), rng: rng.unwrap_or(0), pos: 0, sh, hash: 0xcbf29ce484222325 }
}

fn describe_status(st: i32) -> (String, String) {
    let sig = st & 0x7f;
    if sig == 27 { return ("hang".into(), format!("no result after {} s of CPU time", CASE_CPU_SECS)); }
    if sig != 0 {
        let n = match sig { 4 => "SIGILL", 6 => "SIGABRT", 7 => "SIGBUS", 8 => "SIGFPE", 11 => "SIGSEGV", _ => "signal" };
        return ("crash".into(), format!("the process died with {} ({})", n, sig));
    }
    ("crash".into(), format!("the process exited with status {}", (st >> 8) & 0xff))
}

/// Run one case from a choice list in a forked child. Some((sig, msg)) when it fails.
fn eval_forked(v: &Variant, sh: *mut Shared, choices: &[u64]) -> Option<(String, String)> {
    unsafe {
        (*sh).len = 0; (*sh).msg_len = 0; (*sh).sig_len = 0;
        let pid = sys::fork();
        if pid == 0 {
            arm();
            let mut s = mk_src(sh, choices.to_vec(), None);
            let mut ctx = new_ctx(false);
            match run_one(v, &mut s, &mut ctx) {
                Ok(()) => sys::_exit(0),
                Err(f) => { (*sh).msg_len = put(&mut (*sh).msg, &f.msg); (*sh).sig_len = put(&mut (*sh).sig, &f.sig); sys::_exit(10) }
            }
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        if st == 0 { return None; }
        if st == 10 << 8 && (*sh).sig_len > 0 { return Some(read_fail(sh)); }
        Some(describe_status(st))
    }
}
unsafe fn read_fail(sh: *mut Shared) -> (String, String) {
    (String::from_utf8_lossy(&(*sh).sig[..(*sh).sig_len]).to_string(), String::from_utf8_lossy(&(*sh).msg[..(*sh).msg_len]).to_string())
}

/// Shrink a failing choice list; keeps any failure with the same signature.
fn shrink(v: &Variant, sh: *mut Shared, start: Vec<u64>, keep_first: bool, sig: &str) -> (Vec<u64>, String) {
    let t0 = std::time::Instant::now();
    let mut best = start; let mut msg = String::new();
    let lo = if keep_first { 1 } else { 0 };
    let tries = std::cell::Cell::new(0u32);
    let attempt = |cand: &[u64], best: &mut Vec<u64>, msg: &mut String| -> bool {
        tries.set(tries.get() + 1);
        if tries.get() > 6000 || t0.elapsed().as_secs() > 60 { return false; }
        match eval_forked(v, sh, cand) {
            Some((s2, m2)) if s2 == sig => {
                // what was actually drawn may be shorter than the candidate
                let used: Vec<u64> = unsafe { (*sh).vals[..(*sh).len].to_vec() };
                *best = if used.len() < cand.len() { used } else { cand.to_vec() };
                *msg = m2; true
            }
            _ => false,
        }
    };
    { let b = best.clone(); attempt(&b, &mut best, &mut msg); }
    loop {
        let before = best.clone();
        // cut the tail
        let mut k = best.len() / 2;
        while k >= 1 { while best.len() > k + lo { let c = best[..best.len() - k].to_vec(); if !attempt(&c, &mut best, &mut msg) { break; } } k /= 2; }
        // delete blocks
        for &blk in &[32usize, 8, 4, 3, 2, 1] {
            let mut i = lo;
            while i + blk <= best.len() {
                let mut c = best.clone(); c.drain(i..i + blk);
                if !attempt(&c, &mut best, &mut msg) { i += blk.max(1); }
            }
        }
        // zero blocks, then minimise single values
        for &blk in &[64usize, 16, 4, 1] {
            let mut i = lo;
            while i < best.len() {
                let e = (i + blk).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) { let mut c = best.clone(); for x in &mut c[i..e] { *x = 0 } attempt(&c, &mut best, &mut msg); }
                i += blk;
            }
        }
        let mut i = lo;
        while i < best.len() {
            let mut hi = best[i]; let mut low = 0u64;
            while low < hi && i < best.len() {
                let mid = low + (hi - low) / 2;
                let mut c = best.clone(); c[i] = mid;
                if attempt(&c, &mut best, &mut msg) { hi = mid } else { low = mid + 1 }
            }
            i += 1;
        }
        if best == before || tries.get() > 6000 || t0.elapsed().as_secs() > 60 { break; }
    }
    (best, msg)
}

fn explain(v: &Variant, sh: *mut Shared, choices: &[u64]) -> String {
    // The description is produced in a child too: the case may crash.
    unsafe {
        (*sh).msg_len = 0;
        let pid = sys::fork();
        if pid == 0 {
            arm();
            let mut s = mk_src(sh, choices.to_vec(), None);
            DESC_OUT = sh;
            let mut ctx = new_ctx(true);
            let _ = run_one(v, &mut s, &mut ctx);
            (*sh).msg_len = put(&mut (*sh).msg, &ctx.desc);
            sys::_exit(0)
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        String::from_utf8_lossy(&(*sh).msg[..(*sh).msg_len]).to_string()
    }
}
static mut DESC_OUT: *mut Shared = std::ptr::null_mut();

struct Stats { evals: u64, per_variant: Vec<(u64, u64)>, distinct: HashSet<u64>, samples: Vec<String>, labels: std::collections::BTreeMap<String, u64>, known: std::collections::BTreeMap<String, u64> }

/// Explore. Returns true when no violation was found. Writes a JSON summary to opts.out.
pub fn explore(check: &Check, o: &Opts) -> bool {
    set_hook();
    unsafe { sys::setrlimit(4, &[0, 0]); } // no core files
    let sh = unsafe { sys::map(std::mem::size_of::<Shared>(), true) as *mut Shared };
    let t0 = std::time::Instant::now();
    // plan: (variant, first case, step, count)
    let per = ((if o.thorough { check.thorough } else { check.quick }) as f64 * o.scale).max(1.0) as u64;
    let sel: Vec<usize> = (0..check.variants.len()).filter(|i| match &o.only { Some(n) => check.variants[*i].name.contains(n.as_str()), None => true }).collect();
    unsafe {
        let pid = sys::fork();
        if pid == 0 {
            let mut st = Stats { evals: 0, per_variant: vec![(0, 0); check.variants.len()], distinct: HashSet::new(), samples: vec![], labels: Default::default(), known: Default::default() };
            let mut dig = match &o.digests { Some(p) => Some(std::io::BufWriter::new(std::fs::File::create(p).unwrap())), None => None };
            let mut hit_limit = false;
            // Rounds interleave the variants, so that a time limit cuts all of them alike.
            let rounds = if o.max_secs > 0.0 { 50 } else { 1 };
            'rounds: for round in 0..rounds {
            for &vi in &sel {
                let v = &check.variants[vi];
                let vh = fnv(&v.name);
                let (n, exh) = if v.exhaustive > 0 { (v.exhaustive, true) }
                    else if v.blocks > 0 { if o.thorough { (v.blocks, true) } else { (v.blocks / 2048 + 1, false) } }
                    else { (per * v.weight, false) };
                let (from, to) = (n * round / rounds, n * (round + 1) / rounds);
                let want_sample = st.samples.len() < 12;
                let mut sampled = !want_sample;
                for case in from..to {
                    if case % o.shards != o.shard { continue; }
                    if (v.blocks > 0 || case % 64 < o.shards) && o.max_secs > 0.0 && t0.elapsed().as_secs_f64() > o.max_secs { hit_limit = true; break 'rounds; }
                    arm();
                    (*sh).variant = vi; (*sh).case = case; (*sh).started = 1;
                    let rng = rng_of(check, v, case, o.seed);
                    let mut s = mk_src(sh, if exh { vec![case] } else { vec![] }, Some(rng));
                    let verbose = !sampled && case > from + (to - from) / 3;
                    let mut ctx = new_ctx(verbose);
                    let r = run_one(v, &mut s, &mut ctx);
                    st.evals += 1; st.per_variant[vi].0 += 1;
                    match r {
                        Ok(()) => {}
                        Err(f) => {
                            if o.known.iter().any(|k| *k == f.sig) {
                                *st.known.entry(f.sig).or_insert(0) += 1;
                            } else {
                                (*sh).msg_len = put(&mut (*sh).msg, &f.msg); (*sh).sig_len = put(&mut (*sh).sig, &f.sig);
                                sys::_exit(10);
                            }
                        }
                    }
                    if ctx.nontrivial {
                        if st.distinct.insert(s.hash ^ vh) { st.per_variant[vi].1 += 1; }
                        if verbose && !ctx.desc.is_empty() { sampled = true; st.samples.push(format!("{}: {}", v.name, ctx.desc)); }
                    }
                    for l in ctx.labels { *st.labels.entry(l.to_string()).or_insert(0) += 1; }
                    if let Some(d) = dig.as_mut() { let _ = writeln!(d, "{} {} {:016x}", vi, case, ctx.digest); }
                }
            }
            }
            let mut j = String::from("{");
            let _ = write!(j, "\"check\":{},\"build\":{},\"ok\":true,\"evaluations\":{},\"distinct_nontrivial\":{},\"secs\":{:.3},\"time_limit_hit\":{},", esc(check.id), esc(&o.build), st.evals, st.distinct.len(), t0.elapsed().as_secs_f64(), hit_limit);
            let _ = write!(j, "\"rule\":{},\"variants\":{{", esc(check.rule));
            for (k, &vi) in sel.iter().enumerate() { let _ = write!(j, "{}{}:[{},{}]", if k > 0 { "," } else { "" }, esc(&check.variants[vi].name), st.per_variant[vi].0, st.per_variant[vi].1); }
            j.push_str("},\"labels\":{");
            for (k, (l, n)) in st.labels.iter().enumerate() { let _ = write!(j, "{}{}:{}", if k > 0 { "," } else { "" }, esc(l), n); }
            j.push_str("},\"known\":{");
            for (k, (l, n)) in st.known.iter().enumerate() { let _ = write!(j, "{}{}:{}", if k > 0 { "," } else { "" }, esc(l), n); }
            j.push_str("},\"samples\":[");
            for (k, l) in st.samples.iter().enumerate() { let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, esc(&l.chars().take(1500).collect::<String>())); }
            j.push_str("]}\n");
            if let Some(d) = dig.as_mut() { let _ = d.flush(); }
            std::fs::write(&o.out, j).unwrap();
            sys::_exit(0);
        }
        let mut stt = 0;
        while sys::waitpid(pid, &mut stt, 0) < 0 {}
        if stt == 0 { return true; }
        if (*sh).started == 0 { eprintln!("the exploring process ended before the first case: {:?}", describe_status(stt)); std::process::exit(2); }
        let (sig, msg) = if stt == 10 << 8 && (*sh).sig_len > 0 { read_fail(sh) } else { describe_status(stt) };
        let vi = (*sh).variant; let case = (*sh).case;
        let choices = (&(*sh).vals)[..(*sh).len].to_vec();
        let v = &check.variants[vi];
        let again = eval_forked(v, sh, &choices);
        let reproducible = again.is_some();
        let sig2 = again.map(|a| a.0).unwrap_or_else(|| sig.clone());
        let (small, smsg) = if reproducible { shrink(v, sh, choices.clone(), v.exhaustive > 0, &sig2) } else { (choices.clone(), msg.clone()) };
        let desc = explain(v, sh, &small);
        let mut j = String::from("{");
        let _ = write!(j, "\"check\":{},\"build\":{},\"ok\":false,\"variant\":{},\"case\":{},\"seed\":{},\"signature\":{},\"message\":{},\"first_message\":{},\"input\":{},\"reproducible\":{},\"original_choices\":{},\"choices\":{:?}}}\n",
            esc(check.id), esc(&o.build), esc(&v.name), case, o.seed, esc(&sig2), esc(if smsg.is_empty() { &msg } else { &smsg }), esc(&msg), esc(&desc), reproducible, choices.len(), small);
        std::fs::write(&o.out, j).unwrap();
        false
    }
}

/// Re-run a stored choice list. Prints the outcome; true when it passes.
pub fn replay(check: &Check, variant: &str, choices: &[u64]) -> bool {
    set_hook();
    unsafe { sys::setrlimit(4, &[0, 0]); }
    let sh = unsafe { sys::map(std::mem::size_of::<Shared>(), true) as *mut Shared };
    let v = match check.variants.iter().find(|v| v.name == variant) { Some(v) => v, None => { eprintln!("no variant {}", variant); std::process::exit(2) } };
    let r = eval_forked(v, sh, choices);
    let d = explain(v, sh, choices);
    println!("variant: {}\ninput: {}", variant, d);
    match r {
        None => { println!("result: passes"); true }
        Some((s, m)) => { println!("result: FAILS [{}] {}", s, m); false }
    }
}

/// Re-runs one generated case by its number and prints its input and the digest of its result.
pub fn digest_of(check: &Check, variant: &str, case: u64, seed: u64) {
    set_hook();
    let sh = unsafe { sys::map(std::mem::size_of::<Shared>(), true) as *mut Shared };
    let v = match check.variants.iter().find(|v| v.name == variant) { Some(v) => v, None => { eprintln!("no variant {}", variant); std::process::exit(2) } };
    let mut s = mk_src(sh, vec![], Some(rng_of(check, v, case, seed)));
    let mut ctx = new_ctx(true);
    match run_one(v, &mut s, &mut ctx) {
        Ok(()) => println!("{:016x}", ctx.digest),
        Err(f) => println!("FAILS [{}] {}", f.sig, f.msg),
    }
    println!("input: {}", ctx.desc);
}
fn rng_of(check: &Check, v: &Variant, case: u64, seed: u64) -> u64 {
    mix(mix(seed ^ fnv(check.id)) ^ fnv(&v.name)).wrapping_add(mix(case.wrapping_mul(0x2545F4914F6CDD1D)))
}

// ------------------------------------------------------------------ command line
pub fn main_with(make: fn() -> Check) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    let check = make();
    let id = check.id.to_string();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let o = Opts {
                check: id.clone(),
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: get("--tier").map(|t| t == "thorough").unwrap_or(false),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                shard: get("--shard").and_then(|s| s.parse().ok()).unwrap_or(0),
                shards: get("--shards").and_then(|s| s.parse().ok()).unwrap_or(1),
                out: get("--out").unwrap_or("/dev/stdout".into()),
                build: get("--build").unwrap_or_default(),
                known: get("--known").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
                max_secs: get("--max-secs").and_then(|s| s.parse().ok()).unwrap_or(0.0),
                digests: get("--digests"),
                only: get("--only"),
            };
            std::process::exit(if explore(&check, &o) { 0 } else { 1 });
        }
        Some("replay") => {
            let v = get("--variant").expect("--variant");
            let c: Vec<u64> = get("--choices").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            std::process::exit(if replay(&check, &v, &c) { 0 } else { 1 });
        }
        Some("digest") => {
            let v = get("--variant").expect("--variant");
            let n = |k: &str| -> u64 { get(k).and_then(|s| s.parse().ok()).expect(k) };
            digest_of(&check, &v, n("--case"), n("--seed"));
        }
        Some("list") => { for v in &check.variants { println!("{} {}", v.name, v.exhaustive); } }
        _ => { eprintln!("usage: run|replay|list --check ID ..."); std::process::exit(2) }
    }
}
