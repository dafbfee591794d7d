//! Runs code one instruction at a time (trap flag) and judges every executed instruction of this
//! program by the instruction set the build was made for. Code of shared libraries is not judged:
//! the C library picks its routines by the processor it finds.
#![allow(dead_code)]
use std::os::raw::{c_int, c_void};

#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: c_int, restorer: usize }
extern "C" { fn sigaction(n: c_int, a: *const SigAction, o: *mut SigAction) -> c_int; }

/// Instruction sets beyond x86-64's, in the order of the names.
pub const SETS: [&str; 13] = ["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "fma", "bmi1", "aes", "pclmulqdq", "avx512f"];
const SSE3: u8 = 1; const SSSE3: u8 = 2; const SSE41: u8 = 3; const SSE42: u8 = 4; const POPCNT: u8 = 5; const AVX: u8 = 6; const F16C: u8 = 7;
const AVX2: u8 = 8; const FMA: u8 = 9; const BMI: u8 = 10; const AES: u8 = 11; const PCLMUL: u8 = 12; const AVX512: u8 = 13;
/// The sets the build's target has.
fn has(set: u8) -> bool {
    match set {
        0 => true,
        SSE3 => cfg!(target_feature = "sse3"), SSSE3 => cfg!(target_feature = "ssse3"), SSE41 => cfg!(target_feature = "sse4.1"), SSE42 => cfg!(target_feature = "sse4.2"),
        POPCNT => cfg!(target_feature = "popcnt"), AVX => cfg!(target_feature = "avx"), F16C => cfg!(target_feature = "f16c"), AVX2 => cfg!(target_feature = "avx2"),
        FMA => cfg!(target_feature = "fma"), BMI => cfg!(target_feature = "bmi1"), AES => cfg!(target_feature = "aes"), PCLMUL => cfg!(target_feature = "pclmulqdq"),
        _ => cfg!(target_feature = "avx512f"),
    }
}
/// The set the instruction at `p` belongs to (0: x86-64's own).
pub unsafe fn set_of(p: *const u8) -> u8 {
    let at = |i: usize| *p.add(i);
    let (mut i, mut p66, mut pf2, mut pf3) = (0, false, false, false);
    loop {
        match at(i) { 0x66 => p66 = true, 0xF2 => pf2 = true, 0xF3 => pf3 = true, 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => {} _ => break }
        i += 1;
        if i > 14 { return 0; }
    }
    if at(i) & 0xF0 == 0x40 { i += 1; }
    match at(i) {
        0x62 => AVX512,
        0xC5 | 0xC4 => {
            let three = at(i) == 0xC4;
            let (map, b) = if three { (at(i + 1) & 0x1F, at(i + 2)) } else { (1, at(i + 1)) };
            let o = i + if three { 3 } else { 2 };
            let (op, modrm, wide, pp) = (at(o), at(o + 1), b & 4 != 0, b & 3);
            let reg = modrm >> 6 == 3;
            match map {
                1 => match op {
                    0x60..=0x6D | 0x71..=0x76 | 0xD1..=0xD5 | 0xD7..=0xE5 | 0xE8..=0xEF | 0xF1..=0xF6 | 0xF8..=0xFE if wide && pp == 1 => AVX2,
                    0x70 if wide => AVX2,
                    _ => AVX,
                },
                2 => match op {
                    0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x40 if wide => AVX2,
                    0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5A | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93 => AVX2,
                    0x18 | 0x19 if reg => AVX2,
                    0x13 => F16C,
                    0x96..=0x9F | 0xA6..=0xAF | 0xB6..=0xBF => FMA,
                    0xF2..=0xF7 => BMI,
                    0xDB..=0xDF => AES,
                    _ => AVX,
                },
                _ => match op {
                    0x00..=0x02 | 0x38 | 0x39 | 0x46 => AVX2,
                    0x0E | 0x0F | 0x42 | 0x4C if wide => AVX2,
                    0x1D => F16C,
                    0x44 => PCLMUL,
                    0xDF => AES,
                    0xF0 => BMI,
                    _ => AVX,
                },
            }
        }
        0x0F => match at(i + 1) {
            0x38 => match at(i + 2) {
                0x00..=0x0B | 0x1C..=0x1E => SSSE3,
                0x37 => SSE42,
                0xF0 | 0xF1 => if pf2 { SSE42 } else { 0 },
                0xDB..=0xDF => AES,
                _ => SSE41,
            },
            0x3A => match at(i + 2) { 0x0F => SSSE3, 0x60..=0x63 => SSE42, 0x44 => PCLMUL, 0xDF => AES, _ => SSE41 },
            0xB8 if pf3 => POPCNT,
            0xD0 | 0x7C | 0x7D if p66 || pf2 => SSE3,
            0xF0 if pf2 => SSE3,
            0x12 if pf2 || pf3 => SSE3,
            0x16 if pf3 => SSE3,
            _ => 0,
        },
        _ => 0,
    }
}

pub static mut ACTIVE: bool = false;
static mut TEXT: (usize, usize) = (0, 0);
static mut SEEN: *mut u8 = std::ptr::null_mut();   // one byte per byte of the program: 1 = judged and fine
static mut BAD: (usize, u8) = (0, 0);
pub static mut STEPS: usize = 0;
static mut AWAY: usize = 0;
const TF: u64 = 0x100;

unsafe extern "C" fn trap(_n: c_int, _i: *mut c_void, ctx: *mut c_void) {
    let regs = ctx as *mut u8;
    let rip = *(regs.add(168) as *const usize);
    STEPS += 1;
    if rip >= TEXT.0 && rip < TEXT.1 {
        AWAY = 0;
        let seen = SEEN.add(rip - TEXT.0);
        if *seen == 0 {
            let f = set_of(rip as *const u8);
            if has(f) { *seen = 1; } else if BAD.0 == 0 { BAD = (rip, f); }
        }
    } else { AWAY += 1; }
    // a long stay in a library (an unwinding panic) or a runaway: stop stepping
    if AWAY > 400 || STEPS > 400_000 { *(regs.add(176) as *mut u64) &= !TF; AWAY = 0; }
}

unsafe fn prepare() {
    let here = prepare as *const () as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").expect("maps");
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let mut r = w.next().unwrap().split('-').map(|x| usize::from_str_radix(x, 16).unwrap());
        let (lo, hi) = (r.next().unwrap(), r.next().unwrap());
        if lo <= here && here < hi { TEXT = (lo, hi); }
    }
    assert!(TEXT.1 > 0);
    SEEN = crate::pbt::sys::map(TEXT.1 - TEXT.0, false);
    let a = SigAction { handler: trap as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
    assert!(sigaction(5, &a, std::ptr::null_mut()) == 0);
}

/// Steps from here on. The value is fixed before, and may not be known after.
#[inline(never)]
pub fn on(v: *mut u8) {
    unsafe { if ACTIVE { AWAY = 0; llvm_asm!("lea -128(%rsp), %rsp; pushfq; orq $$0x100, (%rsp); popfq; lea 128(%rsp), %rsp" :: "r"(v) : "memory", "cc" : "volatile"); } }
}
/// No longer steps from here on.
#[inline(never)]
pub fn off(v: *const u8) {
    unsafe { if ACTIVE { llvm_asm!("lea -128(%rsp), %rsp; pushfq; andq $$-257, (%rsp); popfq; lea 128(%rsp), %rsp" :: "r"(v) : "memory", "cc" : "volatile"); } }
}
/// Runs the case; returns the number of steps and what was executed beyond the build's target.
pub fn judge<F: FnOnce()>(whole: bool, f: F) -> (usize, Option<String>) {
    unsafe {
        if SEEN.is_null() { prepare(); }
        BAD = (0, 0); STEPS = 0; AWAY = 0; ACTIVE = true;
        let mut x = 0u8;
        if whole { on(&mut x); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        off(&x);
        ACTIVE = false;
        drop(r);
        let bad = if BAD.0 == 0 { None } else {
            let b: Vec<String> = (0..10).map(|i| format!("{:02x}", *((BAD.0 + i) as *const u8))).collect();
            Some(format!("{}|executed an instruction of {} ({})", SETS[BAD.1 as usize - 1], SETS[BAD.1 as usize - 1], b.join(" ")))
        };
        (STEPS, bad)
    }
}
