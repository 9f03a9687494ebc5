//! The callbacks that `-Zsanitizer=thread` inserts.

use super::*;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU8};

macro_rules! plain {($( $n:literal: $read:ident $write:ident $uread:ident $uwrite:ident $vr:ident $vw:ident; )*) => { $(
    #[no_mangle] pub extern "C" fn $read(a: usize) { touch(a, $n, Kind::Read) }
    #[no_mangle] pub extern "C" fn $write(a: usize) { touch(a, $n, Kind::Write) }
    #[no_mangle] pub extern "C" fn $uread(a: usize) { touch(a, $n, Kind::Read) }
    #[no_mangle] pub extern "C" fn $uwrite(a: usize) { touch(a, $n, Kind::Write) }
    #[no_mangle] pub extern "C" fn $vr(a: usize) { touch(a, $n, Kind::Read) }
    #[no_mangle] pub extern "C" fn $vw(a: usize) { touch(a, $n, Kind::Write) }
)* }}
plain! {
    1: __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_volatile_read1 __tsan_volatile_write1;
    2: __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_volatile_read2 __tsan_volatile_write2;
    4: __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_volatile_read4 __tsan_volatile_write4;
    8: __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_volatile_read8 __tsan_volatile_write8;
    16: __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_volatile_read16 __tsan_volatile_write16;
}
macro_rules! both {($( $n:literal: $rw:ident $urw:ident; )*) => { $(
    #[no_mangle] pub extern "C" fn $rw(a: usize) { touch(a, $n, Kind::Read); touch(a, $n, Kind::Write) }
    #[no_mangle] pub extern "C" fn $urw(a: usize) { touch(a, $n, Kind::Read); touch(a, $n, Kind::Write) }
)* }}
both! {
    1: __tsan_read_write1 __tsan_unaligned_read_write1;
    2: __tsan_read_write2 __tsan_unaligned_read_write2;
    4: __tsan_read_write4 __tsan_unaligned_read_write4;
    8: __tsan_read_write8 __tsan_unaligned_read_write8;
    16: __tsan_read_write16 __tsan_unaligned_read_write16;
}
fn touch(a: usize, n: usize, kind: Kind) {
    if let Some(t) = me() {
        let _off = off();
        access(t, a, n, kind)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    touch(a, n, Kind::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    touch(a, n, Kind::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(a: usize) {
    touch(a, 8, Kind::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _: usize) {
    touch(a, 8, Kind::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

extern "C" {
    fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    touch(s as usize, n, Kind::Read);
    touch(d as usize, n, Kind::Write);
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    touch(s as usize, n, Kind::Read);
    touch(d as usize, n, Kind::Write);
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    touch(d as usize, n, Kind::Write);
    memset(d, c, n)
}

/// Everything around one atomic operation.
#[inline(always)]
fn atomic<R>(name: &'static str, a: usize, n: usize, order: i32, reads: bool, writes: bool, f: impl FnOnce() -> (R, bool)) -> R {
    let Some(t) = me() else { return f().0 };
    let _off = off();
    point(t);
    rt().events.push((t as u8, Event::Atomic(name, a)));
    // (Before it happens: the memory may be gone.)
    access(t, a, n, if writes { Kind::AtomicWrite } else { Kind::AtomicRead });
    let (ret, wrote) = f();
    ordered(t, a, order, reads, writes && wrote);
    ret
}

macro_rules! atomics {($( $n:literal $ty:ident $At:ident: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident; )*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $load(a: *const $At, o: i32) -> $ty { atomic("loads", a as usize, $n, o, true, false, || ((*a).load(SeqCst), false)) }
    #[no_mangle] pub unsafe extern "C" fn $store(a: *const $At, v: $ty, o: i32) { atomic("stores to", a as usize, $n, o, false, true, || ((*a).store(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(a: *const $At, v: $ty, o: i32) -> $ty { atomic("swaps", a as usize, $n, o, true, true, || ((*a).swap(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $add(a: *const $At, v: $ty, o: i32) -> $ty { atomic("adds to", a as usize, $n, o, true, true, || ((*a).fetch_add(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $sub(a: *const $At, v: $ty, o: i32) -> $ty { atomic("subtracts from", a as usize, $n, o, true, true, || ((*a).fetch_sub(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $and(a: *const $At, v: $ty, o: i32) -> $ty { atomic("ands", a as usize, $n, o, true, true, || ((*a).fetch_and(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $or(a: *const $At, v: $ty, o: i32) -> $ty { atomic("ors", a as usize, $n, o, true, true, || ((*a).fetch_or(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $xor(a: *const $At, v: $ty, o: i32) -> $ty { atomic("xors", a as usize, $n, o, true, true, || ((*a).fetch_xor(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $nand(a: *const $At, v: $ty, o: i32) -> $ty { atomic("nands", a as usize, $n, o, true, true, || ((*a).fetch_nand(v, SeqCst), true)) }
    #[no_mangle] pub unsafe extern "C" fn $cas(a: *const $At, c: $ty, v: $ty, o: i32, fo: i32) -> $ty {
        // A compare-exchange that fails is a load with the other ordering.
        let Some(t) = me() else { return match (*a).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } };
        let _off = off();
        point(t);
        rt().events.push((t as u8, Event::Atomic("compares and swaps", a as usize)));
        access(t, a as usize, $n, Kind::AtomicRead);
        match (*a).compare_exchange(c, v, SeqCst, SeqCst) {
            Ok(x) => { access(t, a as usize, $n, Kind::AtomicWrite); ordered(t, a as usize, o, true, true); x }
            Err(x) => { ordered(t, a as usize, fo, true, false); x }
        }
    }
)* }}
atomics! {
    1 u8 AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    2 u16 AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    4 u32 AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    8 u64 AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(o: i32) {
    if let Some(t) = me() {
        let _off = off();
        fence(t, o)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
