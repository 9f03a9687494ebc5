//! A global allocator that, within `on(…)`, remembers every allocation of the thread until `end()`: it checks the
//! layout given back on deallocation, double frees, red zones, writes after free, and leaks. Freed memory is poisoned
//! and stays quarantined until `end()`, so that reads after free show the poison.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, UnsafeCell},
};

pub const POISON: u8 = 0xDD;
const ZONE: u8 = 0xFD;
const FRESH: u8 = 0xA5;
const N: usize = 1024;

pub struct TrackAlloc;

#[derive(Clone, Copy)]
struct Entry {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
}
struct Tracker {
    n: usize,
    allocs: u64,
    frees: u64,
    err: [u8; 200],
    err_len: usize,
    entries: [Entry; N],
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static FAIL_IN: Cell<u64> = const { Cell::new(u64::MAX) };
    static T: UnsafeCell<Tracker> = const {
        UnsafeCell::new(Tracker {
            n: 0,
            allocs: 0,
            frees: 0,
            err: [0; 200],
            err_len: 0,
            entries: [Entry { ptr: 0, size: 0, align: 0, live: false }; N],
        })
    };
}

fn t<R>(f: impl FnOnce(&mut Tracker) -> R) -> R {
    T.with(|t| f(unsafe { &mut *t.get() }))
}

struct Buf<'a>(&'a mut Tracker);
impl std::fmt::Write for Buf<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if self.0.err_len < self.0.err.len() {
                self.0.err[self.0.err_len] = b;
                self.0.err_len += 1;
            }
        }
        Ok(())
    }
}
fn error(t: &mut Tracker, args: std::fmt::Arguments<'_>) {
    use std::fmt::Write;
    if t.err_len == 0 {
        let _ = Buf(t).write_fmt(args);
    }
}

fn zone(align: usize) -> usize {
    align.max(32)
}

unsafe fn tracked_alloc(layout: Layout, zeroed: bool) -> *mut u8 {
    let z = zone(layout.align());
    let Ok(padded) = Layout::from_size_align(layout.size() + 2 * z, layout.align()) else {
        return std::ptr::null_mut();
    };
    let base = System.alloc(padded);
    if base.is_null() {
        return base;
    }
    let p = base.add(z);
    base.write_bytes(ZONE, z);
    p.write_bytes(if zeroed { 0 } else { FRESH }, layout.size());
    p.add(layout.size()).write_bytes(ZONE, z);
    t(|t| {
        t.allocs += 1;
        if t.n < N {
            t.entries[t.n] = Entry { ptr: p as usize, size: layout.size(), align: layout.align(), live: true };
            t.n += 1;
        } else {
            // Cannot be freed properly any more: say so instead of misbehaving.
            error(t, format_args!("tracker: table full"));
        }
    });
    p
}

/// Whether `ptr` was one of ours (and has been dealt with).
unsafe fn tracked_free(ptr: *mut u8, layout: Layout) -> bool {
    t(|t| {
        let Some(i) = (0..t.n).rev().find(|&i| t.entries[i].ptr == ptr as usize) else {
            return false;
        };
        t.frees += 1;
        let e = t.entries[i];
        if !e.live {
            error(t, format_args!("double free of an allocation of {} bytes (align {})", e.size, e.align));
            return true;
        }
        if e.size != layout.size() || e.align != layout.align() {
            error(
                t,
                format_args!(
                    "allocation of {} bytes (align {}) freed as {} bytes (align {})",
                    e.size,
                    e.align,
                    layout.size(),
                    layout.align()
                ),
            );
        }
        let z = zone(e.align);
        let before = std::slice::from_raw_parts(ptr.sub(z), z);
        let after = std::slice::from_raw_parts(ptr.add(e.size), z);
        if before.iter().chain(after).any(|&b| b != ZONE) {
            error(t, format_args!("write out of bounds of an allocation of {} bytes", e.size));
        }
        ptr.write_bytes(POISON, e.size);
        t.entries[i].live = false;
        true
    })
}

fn inside(ptr: *mut u8) -> Option<(usize, usize)> {
    t(|t| {
        t.entries[..t.n]
            .iter()
            .find(|e| (ptr as usize) > e.ptr && (ptr as usize) < e.ptr + e.size)
            .map(|e| (e.size, ptr as usize - e.ptr))
    })
}

unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            tracked_alloc(layout, false)
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            tracked_alloc(layout, true)
        } else {
            System.alloc_zeroed(layout)
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if T.try_with(|t| (*t.get()).n).unwrap_or(0) > 0 {
            if tracked_free(ptr, layout) {
                return;
            }
            if let Some((size, at)) = inside(ptr) {
                t(|t| error(t, format_args!("free of a pointer {at} bytes into an allocation of {size} bytes")));
                return;
            }
        }
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let ours = T.try_with(|t| (*t.get()).n).unwrap_or(0) > 0
            && t(|t| (0..t.n).any(|i| t.entries[i].ptr == ptr as usize));
        if !ours && !ON.try_with(|o| o.get()).unwrap_or(false) {
            return System.realloc(ptr, layout, new);
        }
        let nl = Layout::from_size_align_unchecked(new, layout.align());
        let p = self.alloc(nl);
        if !p.is_null() {
            p.copy_from_nonoverlapping(ptr, layout.size().min(new));
            self.dealloc(ptr, layout);
        }
        p
    }
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0))
    }
}
/// Runs `f` with allocations being tracked.
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(ON.with(|o| o.replace(true)));
    f()
}
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(ON.with(|o| o.replace(false)));
    f()
}
pub fn allocs() -> u64 {
    t(|t| t.allocs)
}
pub fn frees() -> u64 {
    t(|t| t.frees)
}
/// Whether the byte at `p` belongs to a live tracked allocation / to a freed one.
pub fn is_live(p: *const u8) -> Option<bool> {
    t(|t| {
        t.entries[..t.n]
            .iter()
            .rev()
            .find(|e| (p as usize) >= e.ptr && (p as usize) < e.ptr + e.size.max(1))
            .map(|e| e.live)
    })
}
pub fn live_count() -> usize {
    t(|t| t.entries[..t.n].iter().filter(|e| e.live).count())
}
pub fn error_so_far() -> Option<String> {
    t(|t| (t.err_len > 0).then(|| String::from_utf8_lossy(&t.err[..t.err_len]).into_owned()))
}

/// The end of a case: reports the first error, else leaks, and forgets everything.
pub fn end() -> Result<(), String> {
    ON.with(|o| o.set(false));
    let r = t(|t| {
        for i in 0..t.n {
            let e = t.entries[i];
            if e.live {
                error(t, format_args!("leak of {} bytes (align {})", e.size, e.align));
            } else {
                let s = unsafe { std::slice::from_raw_parts(e.ptr as *const u8, e.size) };
                if s.iter().any(|&b| b != POISON) {
                    error(t, format_args!("write after free to an allocation of {} bytes", e.size));
                }
            }
        }
        if t.err_len > 0 {
            Err(String::from_utf8_lossy(&t.err[..t.err_len]).into_owned())
        } else {
            Ok(())
        }
    });
    abandon().ok();
    r
}

/// Forgets everything without judging leaks (they may be due to an early return); reports hard errors only.
pub fn abandon() -> Result<(), String> {
    ON.with(|o| o.set(false));
    let (n, err) = t(|t| {
        (
            std::mem::replace(&mut t.n, 0),
            (t.err_len > 0).then(|| String::from_utf8_lossy(&t.err[..t.err_len]).into_owned()),
        )
    });
    t(|t| {
        for e in &t.entries[..n] {
            if !e.live {
                let z = zone(e.align);
                unsafe {
                    System.dealloc(
                        (e.ptr - z) as *mut u8,
                        Layout::from_size_align_unchecked(e.size + 2 * z, e.align),
                    )
                }
            }
            // Live ones are leaked: something may still point to them.
        }
        t.err_len = 0;
        t.allocs = 0;
        t.frees = 0;
    });
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
