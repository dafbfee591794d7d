//! Collections placed directly against inaccessible pages, with canary bytes on the open side.
use crate::pbt::{sys, Src};
use std::mem::size_of;

const PAGE: usize = 4096;
const DATA: usize = 520 * PAGE;
const NARENA: usize = 16;
const FILL: u8 = 0x5C;

struct Arena { base: *mut u8, used: Option<(usize, usize)> } // used: byte range handed out
static mut ARENAS: Option<Vec<Arena>> = None;
static mut DAMAGE: Option<String> = None;

unsafe fn arenas() -> &'static mut Vec<Arena> {
    if ARENAS.is_none() {
        let mut v = vec![];
        for _ in 0..NARENA {
            let p = sys::map(DATA + 2 * PAGE, false);
            sys::mprotect(p as *mut _, PAGE, 0);
            sys::mprotect(p.add(PAGE + DATA) as *mut _, PAGE, 0);
            let b = p.add(PAGE);
            std::ptr::write_bytes(b, FILL, DATA);
            v.push(Arena { base: b, used: None });
        }
        ARENAS = Some(v);
    }
    ARENAS.as_mut().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place { End, Start, Mid(usize) }
impl Place {
    pub fn draw(s: &mut Src) -> Place {
        match s.upto(3) { 0 | 1 => Place::End, 2 => Place::Start, _ => Place::Mid(s.below(64)) }
    }
}

/// A fresh slice holding `data`, placed in guarded memory. Slot i may be used once per case.
pub fn guarded<T: Copy>(slot: usize, data: &[T], place: Place) -> &'static mut [T] {
    unsafe {
        let a = &mut arenas()[slot];
        release(a, slot);
        let n = data.len() * size_of::<T>();
        assert!(n + 2 * PAGE <= DATA, "guarded slice too long");
        let off = match place { Place::End => DATA - n, Place::Start => 0, Place::Mid(k) => PAGE + k * size_of::<T>() };
        let p = a.base.add(off);
        std::ptr::copy_nonoverlapping(data.as_ptr() as *const u8, p, n);
        a.used = Some((off, off + n));
        std::slice::from_raw_parts_mut(p as *mut T, data.len())
    }
}

unsafe fn release(a: &mut Arena, slot: usize) {
    if let Some((lo, hi)) = a.used.take() {
        let (l0, h0) = (lo.saturating_sub(1024), (hi + 1024).min(DATA));
        let mut bad = None;
        for i in l0..lo { if *a.base.add(i) != FILL { bad = Some(i as isize - lo as isize); *a.base.add(i) = FILL; } }
        for i in hi..h0 { if *a.base.add(i) != FILL { if bad.is_none() { bad = Some(i as isize - lo as isize); } *a.base.add(i) = FILL; } }
        if let Some(b) = bad { DAMAGE = Some(format!("memory outside slice {} (of {} bytes) was overwritten, first at byte offset {}", slot, hi - lo, b)); }
        std::ptr::write_bytes(a.base.add(lo), FILL, hi - lo);
    }
}

/// Checks the bytes around every guarded slice handed out since the last call.
pub fn check_guards() -> Option<String> {
    unsafe {
        if ARENAS.is_none() { return None; }
        for (i, a) in arenas().iter_mut().enumerate() { release(a, i); }
        DAMAGE.take()
    }
}
/// True when guarded memory around slices is already damaged (for checks that want it earlier).
pub fn reset() { unsafe { DAMAGE = None; } let _ = check_guards(); unsafe { DAMAGE = None; } }
