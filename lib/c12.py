"""C12: exported functions of every signature of a family, called through their C symbols by a C program that knows
nothing of safer_ffi; panics at every point of a call; illegal argument patterns (in builds with debug assertions)."""
import itertools
import os
import re
import shutil

import driver
import sf

RUST_PRELUDE = r"""
#![allow(warnings)]
#![recursion_limit = "512"]
extern crate std as alloc_;
use ::safer_ffi::prelude::*;
use ::safer_ffi::{boxed::Box_, closure::{boxed::*, arc::*}, Tuple2};
use ::std::sync::atomic::{AtomicU64, Ordering::*};

pub static SEEN: [AtomicU64; 18] = { const N: AtomicU64 = AtomicU64::new(0); [N; 18] };
#[no_mangle] pub extern "C" fn vp_seen(i: u32) -> u64 { SEEN[i as usize].load(SeqCst) }
#[no_mangle] pub extern "C" fn vp_reset() { for s in &SEEN { s.store(0, SeqCst) } }
pub static FLAG: ::std::sync::atomic::AtomicPtr<u8> = ::std::sync::atomic::AtomicPtr::new(0 as _);
#[no_mangle] pub extern "C" fn vp_flag(p: *mut u8) {
    FLAG.store(p, SeqCst);
    ::std::panic::set_hook(Box::new(|_| ())); // (printing backtraces takes most of the time)
}
pub fn flag() { let p = FLAG.load(SeqCst); if !p.is_null() { unsafe { *p = 1 } } }
pub fn note(id: u64, args: &[u64]) -> u64 {
    flag();
    SEEN[0].fetch_add(1, SeqCst);
    SEEN[1].store(id, SeqCst);
    let mut h = id;
    for (i, a) in args.iter().enumerate() { SEEN[2 + i].store(*a, SeqCst); h = mix(h, *a) }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    let x = (a ^ b.rotate_left(23)).wrapping_mul(0xbf58476d1ce4e5b9);
    x ^ (x >> 29)
}
pub fn bytes_digest(b: &[u8]) -> u64 { b.iter().fold(b.len() as u64, |h, &x| mix(h, x as u64)) }
pub trait V { fn mk(s: u64) -> Self; fn dg(&self) -> u64; }
macro_rules! ints {($($T:ident)*) => ($( impl V for $T { fn mk(s: u64) -> Self { s as $T } fn dg(&self) -> u64 { *self as u64 } } )*)}
ints! { u8 i8 u16 i16 u32 i32 u64 i64 usize isize }
impl V for () { fn mk(_: u64) {} fn dg(&self) -> u64 { 0 } }
impl V for f32 { fn mk(s: u64) -> f32 { (s & 0xffff) as f32 - 30000.5 } fn dg(&self) -> u64 { self.to_bits() as u64 } }
impl V for f64 { fn mk(s: u64) -> f64 { (s & 0xffffffff) as f64 - 30000.5 } fn dg(&self) -> u64 { self.to_bits() } }
impl V for bool { fn mk(s: u64) -> bool { s & 1 == 1 } fn dg(&self) -> u64 { *self as u64 } }
static NUMS: [u64; 4] = [11, 22, 33, 44];
#[no_mangle] pub extern "C" fn vp_nums() -> *const u64 { NUMS.as_ptr() }
impl V for &'static u64 { fn mk(s: u64) -> Self { &NUMS[(s & 3) as usize] } fn dg(&self) -> u64 { **self } }
impl V for Option<&'static u64> { fn mk(s: u64) -> Self { if s % 5 == 0 { None } else { Some(V::mk(s)) } } fn dg(&self) -> u64 { self.map_or(1, |x| *x) } }
impl V for *const u64 { fn mk(s: u64) -> Self { if s % 5 == 0 { 0 as _ } else { <&u64 as V>::mk(s) } } fn dg(&self) -> u64 { unsafe { self.as_ref() }.map_or(1, |x| *x) } }
const STRS: [&str; 3] = ["\0", "a\0", "some longer \u{e9} string\0"];
fn str_(s: u64) -> &'static str { STRS[(s % 3) as usize] }
impl V for char_p::Ref<'static> { fn mk(s: u64) -> Self { str_(s).try_into().unwrap() } fn dg(&self) -> u64 { bytes_digest(self.to_bytes()) } }
#[ffi_export] pub fn vp_free_chb(_: char_p::Box) {}
impl V for char_p::Box { fn mk(s: u64) -> Self { str_(s).trim_end_matches('\0').to_owned().try_into().unwrap() } fn dg(&self) -> u64 { bytes_digest(self.to_bytes()) } }
impl V for Option<char_p::Ref<'static>> { fn mk(s: u64) -> Self { if s % 5 == 0 { None } else { Some(V::mk(s)) } } fn dg(&self) -> u64 { self.map_or(1, |x| bytes_digest(x.to_bytes())) } }
fn sl_(s: u64) -> &'static [u8] { let s = (s % 12) as usize; &STRS[2].as_bytes()[s .. s + s / 2] }
impl V for c_slice::Ref<'static, u8> { fn mk(s: u64) -> Self { sl_(s).into() } fn dg(&self) -> u64 { bytes_digest(self) } }
impl V for str::Ref<'static> { fn mk(s: u64) -> Self { str_(s).into() } fn dg(&self) -> u64 { bytes_digest(self.as_bytes()) } }
impl V for repr_c::String { fn mk(s: u64) -> Self { str_(s).to_owned().into() } fn dg(&self) -> u64 { bytes_digest(self.as_bytes()) } }
impl V for repr_c::Vec<u16> {
    fn mk(s: u64) -> Self { (0 .. s % 5 + 1).map(|i| (s + i) as u16).collect::<Vec<_>>().into() }
    fn dg(&self) -> u64 { self.iter().fold(self.len() as u64, |h, &x| mix(h, x as u64)) }
}
impl V for c_slice::Box<u16> {
    fn mk(s: u64) -> Self { (0 .. s % 5 + 1).map(|i| (s + i) as u16).collect::<Vec<_>>().into_boxed_slice().into() }
    fn dg(&self) -> u64 { self.iter().fold(self.len() as u64, |h, &x| mix(h, x as u64)) }
}
impl V for Box_<u64> { fn mk(s: u64) -> Self { Box_::new(s ^ 0x55) } fn dg(&self) -> u64 { **self } }
impl V for Option<Box_<u64>> { fn mk(s: u64) -> Self { if s % 5 == 0 { None } else { Some(V::mk(s)) } } fn dg(&self) -> u64 { self.as_ref().map_or(1, |b| **b) } }
extern "C" fn fp0(x: u32) -> u32 { x.wrapping_mul(3) }
extern "C" fn fp1(x: u32) -> u32 { x ^ 0xffff }
type Fp = extern "C" fn(u32) -> u32;
impl V for Fp { fn mk(s: u64) -> Self { if s & 1 == 1 { fp1 } else { fp0 } } fn dg(&self) -> u64 { self(77) as u64 } }
impl V for Option<Fp> { fn mk(s: u64) -> Self { if s % 5 == 0 { None } else { Some(V::mk(s)) } } fn dg(&self) -> u64 { self.map_or(1, |f| f(77) as u64) } }
impl V for BoxDynFnMut1<u32, u32> {
    fn mk(s: u64) -> Self { let k = s as u32; Box::new(move |x: u32| x.wrapping_mul(k) ^ 5).into() }
    fn dg(&self) -> u64 { let me: &mut Self = unsafe { &mut *(self as *const _ as *mut Self) }; me.call(77) as u64 }
}
impl V for ArcDynFn1<u32, u32> {
    fn mk(s: u64) -> Self { let k = s as u32; ::std::sync::Arc::new(move |x: u32| x.wrapping_mul(k) ^ 5).into() }
    fn dg(&self) -> u64 { self.call(77) as u64 }
}
#[derive_ReprC] #[repr(C)] pub struct Mixed { a: u8, b: u64 }
impl V for Mixed { fn mk(s: u64) -> Self { Mixed { a: s as u8, b: !s } } fn dg(&self) -> u64 { mix(self.a as u64, self.b) } }
#[derive_ReprC] #[repr(C)] pub struct Floats { a: f32, b: f32 }
impl V for Floats { fn mk(s: u64) -> Self { Floats { a: V::mk(s), b: V::mk(s >> 16) } } fn dg(&self) -> u64 { mix(self.a.dg(), self.b.dg()) } }
#[derive_ReprC] #[repr(C)] pub struct FloatInt { a: f64, b: u32 }
impl V for FloatInt { fn mk(s: u64) -> Self { FloatInt { a: V::mk(s), b: (s >> 16) as u32 } } fn dg(&self) -> u64 { mix(self.a.dg(), self.b as u64) } }
#[derive_ReprC] #[repr(C)] pub struct Large { a: [u64; 5] }
impl V for Large {
    fn mk(s: u64) -> Self { let mut a = [0; 5]; for i in 0 .. 5 { a[i] = mix(s, i as u64) } Large { a } }
    fn dg(&self) -> u64 { self.a.iter().fold(5, |h, &x| mix(h, x)) }
}
#[derive_ReprC] #[repr(C)] pub struct Little { a: [u16; 3] }
impl V for Little {
    fn mk(s: u64) -> Self { let mut a = [0; 3]; for i in 0 .. 3 { a[i] = mix(s, i as u64) as u16 } Little { a } }
    fn dg(&self) -> u64 { self.a.iter().fold(3, |h, &x| mix(h, x as u64)) }
}
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum Small { X = 3, Y = 7, Z = 200 }
impl V for Small { fn mk(s: u64) -> Self { [Small::X, Small::Y, Small::Z][(s % 3) as usize] } fn dg(&self) -> u64 { *self as u64 } }
#[derive_ReprC] #[repr(i32)] #[derive(Clone, Copy)] pub enum Neg { A = -5, B = 0, C = 70000 }
impl V for Neg { fn mk(s: u64) -> Self { [Neg::A, Neg::B, Neg::C][(s % 3) as usize] } fn dg(&self) -> u64 { *self as i32 as u64 } }
#[derive_ReprC] #[repr(C)] pub struct Holds { e: Small, flags: [bool; 2], r: &'static u64 }
impl V for Holds {
    fn mk(s: u64) -> Self { Holds { e: V::mk(s), flags: [s & 1 == 1, s & 2 == 2], r: V::mk(s) } }
    fn dg(&self) -> u64 { mix(mix(self.e.dg(), self.flags[0].dg() * 2 + self.flags[1].dg()), self.r.dg()) }
}
#[derive_ReprC] #[repr(transparent)] pub struct Wrap(bool);
impl V for Wrap { fn mk(s: u64) -> Self { Wrap(V::mk(s)) } fn dg(&self) -> u64 { self.0.dg() } }
impl V for Tuple2<u8, bool> { fn mk(s: u64) -> Self { Tuple2 { _0: s as u8, _1: s & 1 == 1 } } fn dg(&self) -> u64 { mix(self._0 as u64, self._1 as u64) } }
"""

C_PRELUDE = r"""
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
extern uint64_t vp_seen(uint32_t);
extern void vp_reset(void);
extern void vp_flag(uint8_t *);
extern uint64_t const *vp_nums(void);
extern void vp_free_chb(char *);
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = (a ^ (b << 23 | b >> 41)) * 0xbf58476d1ce4e5b9u;
    return x ^ (x >> 29);
}
static uint64_t bytes_digest(void const *p, size_t n) {
    uint64_t h = n;
    for (size_t i = 0; i < n; i++) h = mix(h, ((uint8_t const *)p)[i]);
    return h;
}
#define INT(T, name) typedef T T_##name; static T mk_##name(uint64_t s) { return (T)s; } static uint64_t dg_##name(T x) { return (uint64_t)(int64_t)x; }
#define UINT(T, name) typedef T T_##name; static T mk_##name(uint64_t s) { return (T)s; } static uint64_t dg_##name(T x) { return (uint64_t)x; }
UINT(uint8_t, u8) INT(int8_t, i8) UINT(uint16_t, u16) INT(int16_t, i16) UINT(uint32_t, u32) INT(int32_t, i32)
UINT(uint64_t, u64) INT(int64_t, i64) UINT(size_t, usize) INT(ptrdiff_t, isize)
static float flt4(uint64_t s) { return (float)(s & 0xffff) - 30000.5f; }
typedef float T_f32;
static float mk_f32(uint64_t s) { return flt4(s); }
static uint64_t dg_f32(float x) { uint32_t b; memcpy(&b, &x, 4); return b; }
typedef double T_f64;
static double mk_f64(uint64_t s) { return (double)(s & 0xffffffff) - 30000.5; }
static uint64_t dg_f64(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }
typedef uint8_t T_bool;
static uint8_t mk_bool(uint64_t s) { return s & 1; }
static uint64_t dg_bool(uint8_t x) { return x; }
typedef uint8_t T_wrap;
#define mk_wrap mk_bool
#define dg_wrap dg_bool
typedef uint64_t const *T_ref, *T_oref, *T_ptr;
static uint64_t const *mk_ref(uint64_t s) { return vp_nums() + (s & 3); }
static uint64_t dg_ref(uint64_t const *x) { return *x; }
static uint64_t const *mk_oref(uint64_t s) { return s % 5 ? mk_ref(s) : NULL; }
static uint64_t dg_oref(uint64_t const *x) { return x ? *x : 1; }
#define mk_ptr mk_oref
#define dg_ptr dg_oref
static char const *const STRS[] = { "", "a", "some longer \xc3\xa9 string" };
typedef char const *T_chp, *T_ochp; typedef char *T_chb;
static char const *mk_chp(uint64_t s) { return STRS[s % 3]; }
static uint64_t dg_chp(char const *x) { return bytes_digest(x, strlen(x)); }
static char const *mk_ochp(uint64_t s) { return s % 5 ? mk_chp(s) : NULL; }
static uint64_t dg_ochp(char const *x) { return x ? dg_chp(x) : 1; }
static char *mk_chb(uint64_t s) { return strdup(STRS[s % 3]); }
static uint64_t dg_chb(char *x) { return bytes_digest(x, strlen(x)); }
typedef struct { uint8_t const *ptr; size_t len; } T_sl, T_str;
static T_sl mk_sl(uint64_t s) { s %= 12; T_sl r = { (uint8_t const *)STRS[2] + s, s / 2 }; return r; }
static uint64_t dg_sl(T_sl x) { return bytes_digest(x.ptr, x.len); }
static T_str mk_str(uint64_t s) { T_str r = { (uint8_t const *)STRS[s % 3], strlen(STRS[s % 3]) + 1 }; return r; }
static uint64_t dg_str(T_str x) { return bytes_digest(x.ptr, x.len); }
typedef struct { void *ptr; size_t len, cap; } T_string, T_vec;
static T_string mk_string(uint64_t s) { size_t n = strlen(STRS[s % 3]) + 1; T_string r = { memcpy(malloc(n + 3), STRS[s % 3], n), n, n + 3 }; return r; }
static uint64_t dg_string(T_string x) { return bytes_digest(x.ptr, x.len); }
static uint16_t *words(uint64_t s, size_t n) { uint16_t *p = malloc(2 * n); for (size_t i = 0; i < s % 5 + 1; i++) p[i] = (uint16_t)(s + i); return p; }
static T_vec mk_vec(uint64_t s) { T_vec r = { words(s, 9), s % 5 + 1, 9 }; return r; }
static uint64_t wdigest(void *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = mix(h, ((uint16_t *)p)[i]); return h; }
static uint64_t dg_vec(T_vec x) { return wdigest(x.ptr, x.len); }
typedef struct { uint16_t *ptr; size_t len; } T_slb;
static T_slb mk_slb(uint64_t s) { T_slb r = { words(s, s % 5 + 1), s % 5 + 1 }; return r; }
static uint64_t dg_slb(T_slb x) { return wdigest(x.ptr, x.len); }
typedef uint64_t *T_box, *T_obox;
static uint64_t *mk_box(uint64_t s) { uint64_t *p = malloc(8); *p = s ^ 0x55; return p; }
static uint64_t dg_box(uint64_t *x) { return *x; }
static uint64_t *mk_obox(uint64_t s) { return s % 5 ? mk_box(s) : NULL; }
static uint64_t dg_obox(uint64_t *x) { return x ? *x : 1; }
typedef uint32_t (*T_fp)(uint32_t); typedef T_fp T_ofp;
static uint32_t fp0(uint32_t x) { return x * 3; }
static uint32_t fp1(uint32_t x) { return x ^ 0xffff; }
static T_fp mk_fp(uint64_t s) { return s & 1 ? fp1 : fp0; }
static uint64_t dg_fp(T_fp f) { return f(77); }
static T_fp mk_ofp(uint64_t s) { return s % 5 ? mk_fp(s) : NULL; }
static uint64_t dg_ofp(T_fp f) { return f ? f(77) : 1; }
typedef struct { void *env; uint32_t (*call)(void *, uint32_t); void (*free)(void *); } T_bdf;
static uint32_t c_call(void *env, uint32_t x) { return x * *(uint32_t *)env ^ 5; }
static T_bdf mk_bdf(uint64_t s) { uint32_t *k = malloc(4); *k = (uint32_t)s; T_bdf r = { k, c_call, free }; return r; }
static uint64_t dg_bdf(T_bdf f) { return f.call(f.env, 77); }
typedef struct { void *env; uint32_t (*call)(void *, uint32_t); void (*release)(void *); void (*retain)(void *); } T_adf;
static void c_retain(void *env) { (void)env; abort(); }
static T_adf mk_adf(uint64_t s) { T_bdf b = mk_bdf(s); T_adf r = { b.env, c_call, free, c_retain }; return r; }
static uint64_t dg_adf(T_adf f) { return f.call(f.env, 77); }
typedef struct { uint8_t a; uint64_t b; } T_mixed;
static T_mixed mk_mixed(uint64_t s) { T_mixed r = { (uint8_t)s, ~s }; return r; }
static uint64_t dg_mixed(T_mixed x) { return mix(x.a, x.b); }
typedef struct { float a, b; } T_floats;
static T_floats mk_floats(uint64_t s) { T_floats r = { flt4(s), flt4(s >> 16) }; return r; }
static uint64_t dg_floats(T_floats x) { return mix(dg_f32(x.a), dg_f32(x.b)); }
typedef struct { double a; uint32_t b; } T_fint;
static T_fint mk_fint(uint64_t s) { T_fint r = { mk_f64(s), (uint32_t)(s >> 16) }; return r; }
static uint64_t dg_fint(T_fint x) { return mix(dg_f64(x.a), x.b); }
typedef struct { uint64_t a[5]; } T_large;
static T_large mk_large(uint64_t s) { T_large r; for (int i = 0; i < 5; i++) r.a[i] = mix(s, i); return r; }
static uint64_t dg_large(T_large x) { uint64_t h = 5; for (int i = 0; i < 5; i++) h = mix(h, x.a[i]); return h; }
typedef struct { uint16_t a[3]; } T_little;
static T_little mk_little(uint64_t s) { T_little r; for (int i = 0; i < 3; i++) r.a[i] = (uint16_t)mix(s, i); return r; }
static uint64_t dg_little(T_little x) { uint64_t h = 3; for (int i = 0; i < 3; i++) h = mix(h, x.a[i]); return h; }
typedef uint8_t T_small;
static uint8_t mk_small(uint64_t s) { return s % 3 == 0 ? 3 : s % 3 == 1 ? 7 : 200; }
static uint64_t dg_small(uint8_t x) { return x; }
typedef int32_t T_neg;
static int32_t mk_neg(uint64_t s) { return s % 3 == 0 ? -5 : s % 3 == 1 ? 0 : 70000; }
static uint64_t dg_neg(int32_t x) { return (uint64_t)(int64_t)x; }
typedef struct { uint8_t e, f[2]; uint64_t const *r; } T_holds;
static T_holds mk_holds(uint64_t s) { T_holds r = { mk_small(s), { s & 1, s >> 1 & 1 }, mk_ref(s) }; return r; }
static uint64_t dg_holds(T_holds x) { return mix(mix(x.e, x.f[0] * 2 + x.f[1]), *x.r); }
typedef struct { uint8_t a, b; } T_tup;
static T_tup mk_tup(uint64_t s) { T_tup r = { (uint8_t)s, s & 1 }; return r; }
static uint64_t dg_tup(T_tup x) { return mix(x.a, x.b); }
static long calls, forks;
static uint8_t *page;
#define CHECK(c, ...) do { if (!(c)) { printf("MISMATCH "); printf(__VA_ARGS__); printf("\n"); exit(7); } } while (0)
extern void guarded(void (*run)(void), uint8_t *caught);
typedef struct { char const *name; void (*run)(void); char const *what; } Bad;
/* Runs one call in a child process, which has to die of it before the body starts. */
static void bad_call(Bad const *b) {
    memset(page, 0, 16);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        vp_flag(page);
        guarded(b->run, page + 4);
        _exit(9);
    }
    int st;
    waitpid(pid, &st, 0);
    forks++;
    CHECK(!page[4], "%s: called although %s: the panic unwound into the caller", b->name, b->what);
    CHECK(!page[0], "%s: the body ran although %s", b->name, b->what);
    CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "%s: called although %s: ended with status %x, did not abort", b->name, b->what, st);
}
"""

# name: (Rust type, how C disposes of a result, [(illegal C value built from a legal one `x`, what)])
CLASSES = {
    "u8": ("u8", "", []), "i8": ("i8", "", []), "u16": ("u16", "", []), "i16": ("i16", "", []), "u32": ("u32", "", []),
    "i32": ("i32", "", []), "u64": ("u64", "", []), "i64": ("i64", "", []), "usize": ("usize", "", []), "isize": ("isize", "", []),
    "f32": ("f32", "", []), "f64": ("f64", "", []),
    "bool": ("bool", "", [("x = 2", "a bool of 2"), ("x = 255", "a bool of 255")]),
    "wrap": ("Wrap", "", [("x = 2", "a transparent bool of 2")]),
    "ref": ("&'LT u64", "", [("x = NULL", "a null reference")]),
    "oref": ("Option<&'LT u64>", "", []),
    "ptr": ("*const u64", "", []),
    "chp": ("char_p::Ref<'LT>", "", [("x = NULL", "a null char_p::Ref")]),
    "ochp": ("Option<char_p::Ref<'LT>>", "", []),
    "chb": ("char_p::Box", "vp_free_chb(r)", [("x = NULL", "a null char_p::Box")]),
    "sl": ("c_slice::Ref<'LT, u8>", "", [("x.ptr = NULL", "a null slice"), ("x.ptr = NULL, x.len = 0", "a null empty slice")]),
    "str": ("str::Ref<'LT>", "", [("x.ptr = NULL", "a null string")]),
    "string": ("repr_c::String", "free(r.ptr)", [("x.ptr = NULL", "a null String")]),
    "vec": ("repr_c::Vec<u16>", "free(r.ptr)", [("x.ptr = NULL", "a null Vec")]),
    "slb": ("c_slice::Box<u16>", "free(r.ptr)", [("x.ptr = NULL", "a null boxed slice")]),
    "box": ("repr_c::Box<u64>", "free(r)", [("x = NULL", "a null Box")]),
    "obox": ("Option<repr_c::Box<u64>>", "free(r)", []),
    "fp": ("extern \"C\" fn(u32) -> u32", "", [("x = NULL", "a null function pointer")]),
    "ofp": ("Option<extern \"C\" fn(u32) -> u32>", "", []),
    "bdf": ("BoxDynFnMut1<u32, u32>", "r.free(r.env)", [("x.env = NULL", "a null environment"), ("x.call = NULL", "a null call")]),
    "adf": ("ArcDynFn1<u32, u32>", "r.release(r.env)", [("x.env = NULL", "a null environment"), ("x.call = NULL", "a null call"), ("x.release = NULL", "a null release")]),
    "mixed": ("Mixed", "", []), "floats": ("Floats", "", []), "fint": ("FloatInt", "", []), "large": ("Large", "", []), "little": ("Little", "", []),
    "small": ("Small", "", [("x = 0", "an enum of 0"), ("x = 8", "an enum of 8")]),
    "neg": ("Neg", "", [("x = 5", "an enum of 5"), ("x = (int32_t)0x80000000", "an enum of i32::MIN")]),
    "holds": ("Holds", "", [("x.e = 4", "an illegal enum in a struct"), ("x.f[0] = 2", "an illegal bool in an array in a struct"),
                            ("x.f[1] = 9", "an illegal last bool in an array in a struct"), ("x.r = NULL", "a null reference in a struct")]),
    "tup": ("Tuple2<u8, bool>", "", [("x.b = 3", "an illegal bool in a tuple")]),
}
RETS = ["unit"] + list(CLASSES)
KEY8 = ["u8", "f64", "mixed", "large", "box", "sl", "small", "bdf"]


def rust_ty(c, lt="static"):
    return "()" if c == "unit" else CLASSES[c][0].replace("LT", lt)


class Fun:
    def __init__(self, i, args, ret):
        self.i, self.args, self.ret = i, args, ret
        self.form = i % 10
        self.cname = "f%d" % i
        if self.form == 2:
            self.cname = "renamed_%d" % i

    def sig(self):
        return "%s(%s) -> %s" % (self.cname, ", ".join(rust_ty(a) for a in self.args), rust_ty(self.ret))

    def rust(self):
        lts = self.form == 5 and any("LT" in CLASSES[a][0] for a in self.args)
        params, digests = [], []
        for k, a in enumerate(self.args):
            n = "a%d" % k
            if self.form == 4:
                n_ = ["mut a%d", "ref a%d", "ref mut a%d"][k % 3] % k
            elif self.form == 8:
                n = "__arg_%d" % (len(self.args) - 1 - k)  # the macro's own naming scheme, in another order
                n_ = n
            elif self.form == 9:
                n = ["abort_on_unwind_guard", "mem", "layout", "ret", "self_", "unsafe_", "safer_ffi", "note", "r#type", "fun", "core", "env", "std"][k % 13]
                n_ = n
            else:
                n_ = n
            t = rust_ty(a, "a" if lts else "static")
            params.append("%s: %s" % (n_, t))
            e = "&" + n if self.form != 4 or k % 3 == 0 else n
            if lts and "LT" in CLASSES[a][0]:
                e = "unsafe { &*(%s as *const _ as *const u8 as *const %s) }" % (e, rust_ty(a))
            digests.append("<%s as V>::dg(%s)" % (rust_ty(a), e))
        f = self.form
        name = "f%d" % self.i
        attrs = ["#[ffi_export]"]
        if f == 2:
            attrs = ['#[ffi_export(rename = "%s")]' % self.cname]
        if f == 6:
            attrs = ["/// Docs \"here\".", "#[cfg(all())]", "#[ffi_export]", "#[inline(never)]"]
        quals = {1: "pub extern \"C\" ", 3: "pub unsafe ", 7: "pub(crate) "}.get(f, "")
        arrow = "" if self.ret == "unit" and f != 3 else " -> " + rust_ty(self.ret)
        crate = "crate::note" if f == 9 else "note"
        body = "let h__ = %s(%d, &[%s]); " % (crate, self.i, ", ".join(digests))
        body += "return V::mk(h__);" if f == 6 else "V::mk(h__)"
        txt = "%s\n%sfn %s%s(%s)%s { %s }" % ("\n".join(attrs), quals, name, "<'a>" if lts else "", ", ".join(params), arrow, body)
        if f == 7:
            txt = "pub mod m%d { use super::*; %s }" % (self.i, txt)
        return txt

    def c_decl(self):
        r = "void" if self.ret == "unit" else "T_" + self.ret
        return "extern %s %s(%s);" % (r, self.cname, ", ".join("T_" + a for a in self.args) or "void")

    def c_call(self, seeds):
        out = ["static void call_%d(uint64_t s) {" % self.i]
        for k, a in enumerate(self.args):
            out.append("    T_%s a%d = mk_%s(mix(s, %d)); uint64_t d%d = dg_%s(a%d);" % (a, k, a, k, k, a, k))
        out.append("    vp_reset(); calls++; uint64_t h = %d;" % self.i)
        call = "%s(%s)" % (self.cname, ", ".join("a%d" % k for k in range(len(self.args))))
        out.append("    %s%s;" % ("" if self.ret == "unit" else "T_%s r = " % self.ret, call))
        out.append('    CHECK(vp_seen(0) == 1, "%s: one call ran the body %%d times", (int)vp_seen(0));' % self.cname)
        out.append('    CHECK(vp_seen(1) == %d, "%s: the call ran function f%%d", (int)vp_seen(1));' % (self.i, self.cname))
        for k, a in enumerate(self.args):
            out.append('    CHECK(vp_seen(%d) == d%d, "%s: argument %d (%s) arrived changed (seed %%d)", (int)s);' % (k + 2, k, self.cname, k, a))
            out.append("    h = mix(h, d%d);" % k)
        if self.ret != "unit":
            out.append("    T_%s e = mk_%s(h);" % (self.ret, self.ret))
            out.append('    CHECK(dg_%s(r) == dg_%s(e), "%s: the result (%s) arrived changed (seed %%d)", (int)s);' % (self.ret, self.ret, self.cname, self.ret))
            if CLASSES[self.ret][1]:
                out.append("    %s;" % CLASSES[self.ret][1])
        out.append("}")
        return "\n".join(out)

    def c_bad(self):
        """[(name, C text, what)], one per illegal pattern of each argument."""
        res = []
        for k, a in enumerate(self.args):
            for j, (bad, what) in enumerate(CLASSES[a][2]):
                fn = "bad_%d_%d_%d" % (self.i, k, j)
                mk = " ".join("T_%s a%d = mk_%s(mix(3, %d));" % (b, m, b, m) for m, b in enumerate(self.args))
                txt = "static void %s(void) { %s { T_%s x = a%d; %s; a%d = x; } %s(%s); }" % (
                    fn, mk, a, k, bad, k, self.cname, ", ".join("a%d" % m for m in range(len(self.args))))
                res.append((fn, txt, "argument %d is %s" % (k, what)))
        return res


def family(tier):
    """Argument lists: nothing, every class, every pair; triples of a selection (thorough: of more); longer ones by rotation."""
    cs = list(CLASSES)
    lists = [()] * len(RETS) + [(a,) for a in cs]
    lists += list(itertools.product(cs, cs))
    key = KEY8 + ["bool", "f32", "u64", "floats", "fint", "ref", "chb", "vec", "fp", "holds"] if tier == "thorough" else KEY8
    lists += list(itertools.product(key, key, key))
    for n in range(4, 13):
        for r in range(len(cs) if tier == "thorough" else 12):
            step = 1 + r % 5
            lists.append(tuple(cs[(r * 3 + k * step) % len(cs)] for k in range(n)))
    # Every class is a result with each way of writing a function.
    out = []
    for i, args in enumerate(lists):
        out.append(Fun(i, args, RETS[(i + i // len(RETS)) % len(RETS)]))
    return out


PANICS_RUST = r"""
pub struct Loud(pub u32);
impl Drop for Loud { fn drop(&mut self) { flag2(); if self.0 == 1 { panic!("while dropping") } } }
pub fn flag2() { let p = FLAG.load(SeqCst); if !p.is_null() { unsafe { *p.add(1) += 1 } } }
pub fn boom(kind: u32) {
    flag();
    match kind {
        0 => panic!("a literal"),
        1 => panic!("formatted {}", kind),
        2 => ::std::panic::panic_any(42_u64),
        3 => ::std::panic::resume_unwind(Box::new("resumed")),
        4 => { let v: Vec<u8> = vec![]; let _ = ::std::hint::black_box(&v)[3]; },
        5 => { let _: u8 = ::std::hint::black_box(None).unwrap(); },
        _ => { let z = ::std::hint::black_box(0_u32); let _ = ::std::hint::black_box(1 / z); },
    }
}
"""
KINDS = 7


def panics():
    """[(name, Rust source, C call)]"""
    out = []
    args = [("", "", ""), ("a: u64", "uint64_t", "5"), ("a: repr_c::Box<u64>", "void *", "mk_box(9)"), ("a: repr_c::Vec<u16>, b: f64", "T_vec, double", "mk_vec(9), 1.5"),
            ("a: char_p::Box, b: Large, c: Small", "char *, T_large, T_small", "mk_chb(1), mk_large(1), 7")]
    rets = [("", "()", "void"), (" -> u64", "u64", "uint64_t"), (" -> Large", "Large", "T_large"), (" -> repr_c::Box<u64>", "Box_<u64>", "uint64_t *"), (" -> f32", "f32", "float")]
    n = 0
    for (ra, ca, va), (rr, rt, cr) in itertools.product(args, rets):
        for where in ("first", "late", "local", "inner", "closure"):
            kind = n % KINDS
            attr = ['#[ffi_export]', '#[ffi_export(rename = "p%d")]' % n][n % 2]
            q = ["", "pub unsafe ", "extern \"C\" "][n // 2 % 3]
            body = {
                "first": "boom(%d); V::mk(1)" % kind,
                "late": "let keep = Loud(0); let r = <%s as V>::mk(1); boom(%d); r" % (rt, kind),
                "local": "flag(); let l = Loud(1); <%s as V>::mk(1)" % rt,
                "inner": "fn go(n: u32) { let l = Loud(0); if n == 0 { boom(%d) } else { go(n - 1) } } go(5); V::mk(1)" % kind,
                "closure": "let f = || boom(%d); (0 .. 2).for_each(|_| f()); V::mk(1)" % kind,
            }[where]
            name = "p%d" % n
            fn = ["p%d_" % n if n % 2 else name][0]
            out.append((name, "%s\n%sfn %s(%s)%s { %s }" % (attr, q, fn, ra, rr, body), "%s %s(%s)" % (cr, name, ca), va))
            n += 1
    # A panic while dropping an argument: boxed closures own whatever Rust or C put there.
    out.append(("pd0", "#[ffi_export]\nfn pd0(f: BoxDynFnMut0<()>) { flag(); }\n"
                "#[ffi_export]\nfn mk_loud() -> BoxDynFnMut0<()> { let l = Loud(1); Box::new(move || { let _ = &l; }).into() }", "void pd0(T_bdf)", "mk_loud()"))
    out.append(("pd1", "#[derive_ReprC] #[repr(opaque)] pub struct Op { l: Loud }\n#[ffi_export]\nfn mk_op() -> repr_c::Box<Op> { Box::new(Op { l: Loud(1) }).into() }\n"
                "#[ffi_export]\nfn pd1(a: u32, o: repr_c::Box<Op>) -> u32 { flag(); a }", "uint32_t pd1(uint32_t, void *)", "1, mk_op()"))
    out.append(("pd2", "#[ffi_export]\nfn pd2(o: repr_c::Box<Op>, p: repr_c::Box<Op>) { flag(); ::std::mem::forget(p) }", "void pd2(void *, void *)", "mk_op(), mk_op()"))
    out.append(("pd3", "#[ffi_export]\nfn pd3(o: &'_ mut repr_c::Box<Op>) { flag(); let new = Op { l: Loud(0) }; *o = Box::new(new).into(); }", "void pd3(void **)", "(void *[]) { mk_op() }"))
    return out


PANIC_MAIN = r"""
typedef struct { char const *name; void (*run)(void); } Case;
extern Case const CASES[]; extern int const N_CASES;
int main(void) {
    page = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < N_CASES; i++) {
        memset(page, 0, 16);
        int fds[2];
        if (pipe(fds)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            dup2(fds[1], 2);
            vp_flag(page);
            guarded(CASES[i].run, page + 4);
            page[5] = 1;
            _exit(9);
        }
        close(fds[1]);
        char buf[65536]; size_t n = 0; ssize_t k;
        while (n < sizeof buf - 1 && (k = read(fds[0], buf + n, sizeof buf - 1 - n)) > 0) n += k;
        close(fds[0]);
        buf[n] = 0;
        int st;
        waitpid(pid, &st, 0);
        forks++;
        CHECK(page[0], "%s: the body did not run", CASES[i].name);
        CHECK(!page[4], "%s: the panic unwound into the caller", CASES[i].name);
        CHECK(!page[5], "%s: the call returned although its body panicked", CASES[i].name);
        CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "%s: the process ended with status %x, it did not abort", CASES[i].name, st);
    }
    printf("OK forks=%ld\n", forks);
    return 0;
}
"""
CATCHER = r"""
#include <unistd.h>
#include <stdint.h>
// (Leaving the catch block would end the process: Rust does not let go of its panics.)
extern "C" void guarded(void (*run)(void), uint8_t *caught) { try { run(); } catch (...) { *caught = 1; _exit(5); } }
"""


def build_part(base, d, k, funs, bad):
    src = os.path.join(d, "part%d.rs" % k)
    open(src, "w").write(RUST_PRELUDE + "\n".join(f.rust() for f in funs))
    so = os.path.join(d, "libpart%d.so" % k)
    r = base.rustc(src, so, kind="cdylib", name="part%d" % k, extra=["-C", "opt-level=0"])
    if r.returncode != 0:
        raise driver.Violation("exported functions of the family do not compile", dict(log=[l for l in r.stderr.splitlines() if l.startswith("error")][:10] + r.stderr.splitlines()[:30]))
    c = [C_PRELUDE]
    bads = []
    for f in funs:
        c.append(f.c_decl())
        c.append(f.c_call(3))
        if bad:
            for fn, txt, what in f.c_bad():
                c.append(txt)
                bads.append('{ "%s", %s, "%s" }' % (f.sig().replace('"', "'"), fn, what))
    if bads:
        c.append("static Bad const BADS[] = { %s };" % ",\n    ".join(bads))
    c.append("static void (*const CALLS[])(uint64_t) = { %s };" % ", ".join("call_%d" % f.i for f in funs))
    c.append("int main(void) {\n    page = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);")
    c.append("    for (size_t i = 0; i < sizeof CALLS / sizeof CALLS[0]; i++) for (uint64_t s = 1; s <= 15; s++) CALLS[i](s);")
    if bads:
        c.append("    for (size_t i = 0; i < sizeof BADS / sizeof BADS[0]; i++) bad_call(&BADS[i]);")
    c.append('    printf("OK calls=%ld forks=%ld\\n", calls, forks);\n    return 0;\n}')
    cf = os.path.join(d, "part%d.c" % k)
    open(cf, "w").write("\n".join(c))
    exe = os.path.join(d, "part%d" % k)
    cc = ["gcc", "clang"][k % 2]
    cx = os.path.join(d, "part%d.cpp" % k)
    open(cx, "w").write(CATCHER)
    sf.must(driver.run([cc, "-std=gnu11", "-w", "-O1", "-fexceptions", "-fno-strict-aliasing", "-c", "-o", cf + ".o", cf]), "compiling the C caller")
    link(["g++", "-o", exe, cf + ".o", cx, so, "-Wl,-rpath," + d])
    r = driver.run([exe], timeout=800)
    return judge(r, exe)


def link(cmd):
    r = driver.run(cmd)
    missing = sorted(set(re.findall(r"undefined reference to `(\w+)'", r.stderr)))
    if missing:
        raise driver.Violation("functions are not exported under their C names: %s" % ", ".join(missing[:8]), dict(log=missing[:40]))
    sf.must(r, "linking the C caller")


def judge(r, exe):
    last = r.stdout.strip().splitlines()[-1:] or [""]
    if r.returncode == 0 and last[0].startswith("OK"):
        return {k: int(v) for k, v in (x.split("=") for x in last[0].split()[1:])}
    if last[0].startswith("MISMATCH"):
        raise driver.Violation(last[0][9:], dict(log=[last[0]], replay=[exe]))
    raise driver.Violation("the C caller died (status %d)" % r.returncode, dict(log=r.stdout.splitlines()[-5:] + r.stderr.splitlines()[-8:], replay=[exe]))


def run_panics(base, d, label):
    ps = panics()
    src = os.path.join(d, "panics_%s.rs" % label)
    open(src, "w").write(RUST_PRELUDE + PANICS_RUST + "\n".join(p[1] for p in ps))
    so = os.path.join(d, "libpanics_%s.so" % label)
    r = base.rustc(src, so, kind="cdylib", name="panics_" + label, extra=["-C", "opt-level=%d" % (label == "ship")])
    if r.returncode != 0:
        raise driver.Violation("exported functions do not compile", dict(log=r.stderr.splitlines()[:40]))
    c = [C_PRELUDE, "extern T_bdf mk_loud(void); extern void *mk_op(void);", PANIC_MAIN]
    for name, _, decl, va in ps:
        c.append("extern %s;\nstatic void run_%s(void) { %s(%s); }" % (decl, name, name, va))
    c.append("Case const CASES[] = { %s };\nint const N_CASES = %d;" % (", ".join('{ "%s", run_%s }' % (p[0], p[0]) for p in ps), len(ps)))
    cf, cx, exe = (os.path.join(d, "panics_%s%s" % (label, e)) for e in (".c", ".cpp", ""))
    open(cf, "w").write("\n".join(c))
    open(cx, "w").write(CATCHER)
    sf.must(driver.run(["gcc", "-std=gnu11", "-w", "-fexceptions", "-c", "-o", cf + ".o", cf]), "compiling the C caller")
    link(["g++", "-o", exe, cf + ".o", cx, so, "-Wl,-rpath," + d])
    try:
        return judge(driver.run([exe], timeout=600), exe)
    except driver.Violation as v:
        name = v.what.split(":")[0]
        v.case["log"] = [p[1] for p in ps if p[0] == name][:1] + v.case["log"]
        raise


ASYNC_RUST = r"""
mod ex {
    use ::std::{future::Future, task::*, sync::Arc, pin::Pin};
    struct W; impl Wake for W { fn wake(self: Arc<Self>) {} }
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        let w = Arc::new(W).into();
        let mut cx = Context::from_waker(&w);
        loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
    }
    pub struct Times(pub u32);
    impl Future for Times { type Output = (); fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; Poll::Pending } } }
}
"""


def async_funs(first, tier):
    """Exported async functions: every class as argument and as result, a number of suspensions, renamed or not."""
    out = []
    cs = list(CLASSES)
    for k, a in enumerate(cs):
        f = Fun(first + k, (a, cs[(k + 7) % len(cs)]), RETS[(k * 5 + 1) % len(RETS)])
        f.form = 0
        renamed = k % 2
        f.cname = "renamed_%d" % f.i if renamed else "f%d" % f.i
        attr = '#[ffi_export(executor = ex::block_on%s)]' % (', rename = "%s"' % f.cname if renamed else "")
        pre = "a0: %s, a1: %s" % (rust_ty(f.args[0]), rust_ty(f.args[1]))
        arrow = "" if f.ret == "unit" else " -> " + rust_ty(f.ret)
        txt = ("%s\nasync fn f%d(%s)%s { let d0 = a0.dg(); ffi_await!(async move { ex::Times(%d).await; let h = note(%d, &[d0, a1.dg()]); ex::Times(%d).await; <%s as V>::mk(h) }) }"
               % (attr, f.i, pre, arrow, k % 3, f.i, k % 2, rust_ty(f.ret)))
        f.rust = lambda txt=txt: txt
        out.append(f)
    return out


def check(prop, tier):
    d = os.path.join(driver.BUILD, "c12")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fam = family(tier)
    total = dict(calls=0, forks=0)
    done = []
    # (label, features, profile, illegal arguments too, which functions)
    runs = [("dev", (), "dev", True, fam), ("ship", (), "ship", False, fam), ("headers", ("headers", "async"), "ship", False, None)]
    sample = None
    for label, feats, profile, bad, funs in runs:
        base = sf.Base(feats, profile)
        dd = os.path.join(d, label)
        os.makedirs(dd)
        jobs = []
        if funs is None:
            asy = async_funs(100000, tier)
            funs = fam if tier == "thorough" else fam[::7]
        else:
            asy = []
        size = max(40, -(-len(funs) // (8 if tier == "quick" else 32)))
        parts = [funs[i:i + size] for i in range(0, len(funs), size)]
        jobs = [lambda k=k, p=p: build_part(base, dd, k, p, bad) for k, p in enumerate(parts)]
        jobs.append(lambda: run_panics(base, dd, label))
        if asy:
            def go(k=len(parts)):
                head = asy[0].rust
                asy[0].rust = lambda: ASYNC_RUST + head()
                return build_part(base, dd, k, asy, False)
            jobs.append(go)
        for r in sf.parallel(lambda j: j(), jobs):
            for k, v in r.items():
                total[k] += v
        done.append("%s: %d functions, %d async, %d panicking" % (label, len(funs), len(asy), len(panics())))
        sample = funs[len(funs) // 2].rust().splitlines()[-1][:300]
    n_bad = sum(len(f.c_bad()) for f in fam)
    shutil.rmtree(d, ignore_errors=True)
    return dict(
        states=len(fam) + len(panics()) + n_bad, transitions=total["calls"] + total["forks"], traces_validated_against_impl=total["calls"] + total["forks"],
        distinct_outcomes=len(fam), exhaustive=True,
        bounds="arities 0 to 12; every one of %d type classes as only argument and as result, all pairs, all triples of %d classes, 10 ways of writing the function; 15 seeds each; "
               "%d illegal argument patterns; %d panicking functions" % (len(CLASSES), 18 if tier == "thorough" else 8, n_bad, len(panics())),
        configurations=done, samples=[sample, panics()[7][1]])
