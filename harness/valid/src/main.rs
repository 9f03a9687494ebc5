//! C10: validity checks; C11: optional values.
#![allow(clippy::all)]
mod opt;
mod zoo;

use safer_ffi::boxed::Box_;
use safer_ffi::closure::*;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, Opaque, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use safer_ffi::ptr;
use safer_ffi::slice;
use safer_ffi::tuple::*;
use std::mem::{align_of, forget, size_of, MaybeUninit};
use vc::{catches, ensure, hash_of, Chooser, Res, Session};
use zoo::*;

#[global_allocator]
static A: vc::track::TrackAlloc = vc::track::TrackAlloc;

pub fn layout<T: ReprC>(b: &[u8]) -> CLayoutOf<T> {
    assert!(b.len() == size_of::<CLayoutOf<T>>(), "explorer: {} bytes for a {}", b.len(), std::any::type_name::<T>());
    unsafe { b.as_ptr().cast::<CLayoutOf<T>>().read_unaligned() }
}
/// The bytes of a C value that carry something.
pub fn bytes_of<T: Zoo>(l: CLayoutOf<T>) -> Vec<u8> {
    let l = MaybeUninit::new(l);
    let p = l.as_ptr().cast::<u8>();
    T::mask().iter().enumerate().map(|(i, &m)| if m { unsafe { *p.add(i) } } else { 0 }).collect()
}
pub fn masked<T: Zoo>(b: &[u8]) -> Vec<u8> {
    T::mask().iter().zip(b).map(|(&m, &b)| if m { b } else { 0 }).collect()
}

fn check<T: Zoo>(c: &mut Chooser) -> Res {
    let name = std::any::type_name::<T>();
    ensure!(size_of::<T>() == size_of::<CLayoutOf<T>>(), "{name}: the C layout has another size");
    ensure!(align_of::<T>() == align_of::<CLayoutOf<T>>(), "{name}: the C layout has another alignment");
    for p in T::all() {
        ensure!(p.bytes.len() == size_of::<T>(), "{name} has size {} instead of {}", size_of::<T>(), p.bytes.len());
        c.step();
        c.state(hash_of(&(name, &p.bytes)));
        c.outcome(hash_of(&(name, p.legal)));
        let hex = || p.bytes.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ");
        let l = layout::<T>(&p.bytes);
        let valid = catches(|| T::is_valid(&l)).map_err(|()| format!("{name}: is_valid panicked on {}", hex()))?;
        ensure!(valid == p.legal, "{name}: is_valid says {valid} of the {} pattern {}", if p.legal { "legal" } else { "illegal" }, hex());
        match unsafe { from_raw::<T>(l) } {
            Some(v) => {
                let legal = p.legal;
                if !legal {
                    forget(v);
                    return Err(format!("{name}: from_raw accepts {}", hex()));
                }
                let back = unsafe { into_raw(v) };
                ensure!(bytes_of::<T>(back) == masked::<T>(&p.bytes), "{name}: {} changed on its way through Rust", hex());
            },
            None => ensure!(!p.legal, "{name}: from_raw refuses {}", hex()),
        }
        if p.legal || cfg!(debug_assertions) {
            let r = catches(|| forget(unsafe { from_raw_unchecked::<T>(l) }));
            ensure!(r.is_ok() == p.legal, "{name}: from_raw_unchecked {} {}", if r.is_ok() { "accepts" } else { "panics on" }, hex());
        }
    }
    Ok(())
}

fn words<T: Zoo>(c: &mut Chooser, chunk: u32, legal: &[u32]) -> Res {
    for n in chunk << 24..=(chunk << 24 | 0xff_ffff) {
        c.transitions += 1;
        let l = layout::<T>(&n.to_ne_bytes());
        if T::is_valid(&l) != legal.contains(&n) {
            return Err(format!("{}: is_valid is wrong about {n:#x}", std::any::type_name::<T>()));
        }
    }
    Ok(())
}

type Body = fn(&mut Chooser) -> Res;
macro_rules! list {( $( $T:ty ),* $(,)? ) => ( vec![ $( (stringify!($T), check::<$T> as Body) ),* ] )}

fn leaves() -> Vec<(&'static str, Body)> {
    list![
        u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64, safer_ffi::c_char, safer_ffi::c_int,
        *const u8, *mut u8, *const u32, *mut u64, *const bool, *mut Pair, *const *const u16, *mut Big,
        bool,
        U8One, U8Seq, U8Gap, U8Rev, U8Const, U8Ends, I8Neg, I8Ends, U16Seq, U16Wide, I16Neg, U32Wide, U32Ends, I32Neg,
        U64Wide, U64Ends, I64Neg, CSeq, CNeg,
        &'static u8, &'static u16, &'static u32, &'static u64, &'static bool, &'static f64, &'static [u16; 3],
        &'static Pair, &'static Big, &'static Op64, &'static Op1, &'static OpGen<u8>, &'static U32Wide, &'static Opaque<u16>,
        &'static Vec<u8>, &'static String, &'static &'static str, &'static std::sync::Arc<u8>,
        &'static &'static u8, &'static Tuple2<u8, u32>,
        &'static mut u8, &'static mut u32, &'static mut Big, &'static mut Op64, &'static mut &'static mut u16,
        std::ptr::NonNull<u8>, std::ptr::NonNull<u16>, std::ptr::NonNull<Big>, std::ptr::NonNull<Op64>,
        ptr::NonNullRef<u8>, ptr::NonNullRef<u32>, ptr::NonNullRef<Op64>,
        ptr::NonNullMut<u8>, ptr::NonNullMut<u64>, ptr::NonNullMut<Op64>,
        ptr::NonNullOwned<u8>, ptr::NonNullOwned<u16>, ptr::NonNullOwned<Op64>,
        Box_<u8>, Box_<u64>, Box_<Big>, Box_<Op64>, Box_<Pair>,
        char_p::Ref<'static>, char_p::Raw, char_p::Box,
        Out<'static, u8>, Out<'static, u32>, Out<'static, Big>,
        extern "C" fn(), unsafe extern "C" fn(), extern "C" fn() -> u8, extern "C" fn(u8), unsafe extern "C" fn(bool) -> bool,
        extern "C" fn(u8, u16) -> u32, extern "C" fn(u8, u16, u32), extern "C" fn(u8, u16, u32, u64) -> Big, extern "C" fn(u8, u8, u8, u8, u8),
        extern "C" fn(u8, u8, u8, u8, u8, u8) -> i8, extern "C" fn(u8, u8, u8, u8, u8, u8, u8), unsafe extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8),
        extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8, u8) -> f64, unsafe extern "C" fn(&'static u8, Box_<u8>) -> Option<&'static u16>,
        extern "C" fn(extern "C" fn(u8) -> u8) -> bool,
        Callback, CallbackLt,
    ]
}
fn aggregates() -> Vec<(&'static str, Body)> {
    #[allow(unused_mut)]
    let mut v = list![
        Pair, Big, OneBool, Last, Middle, Nest, Nest3, WithFn, WithLt<'static>, Phantom<u64>, Many,
        Gen<u8, bool>, Gen<bool, bool>, Gen<&'static u16, U8Gap>, Gen<Gen<bool, u64>, I16Neg>, Gen<slice::slice_ref<'static, u16>, Option<&'static u8>>,
        Gen<[bool; 3], TaggedOption<bool>>, Gen<TrRenamed, TrEnum>,
        TrBool, TrRef, TrRenamed, TrEnum, TrTr, TrGen<bool>, TrGen<U8Seq>, TrGen<TrGen<&'static u64>>, TrPh<'static>, TrStruct, TrSlice,
        slice::slice_ref<'static, u8>, slice::slice_ref<'static, u16>, slice::slice_ref<'static, Big>,
        slice::slice_mut<'static, u32>, slice::slice_mut<'static, bool>, slice::slice_raw<u16>, slice::slice_raw<Op64>,
        slice::slice_boxed<u32>, slice::slice_boxed<Pair>, repr_c::Vec<u8>, repr_c::Vec<u32>, repr_c::Vec<Big>, repr_c::String,
        str::Ref<'static>, str::Box,
        Tuple1<bool>, Tuple1<&'static u32>, Tuple2<bool, u8>, Tuple2<u8, bool>, Tuple2<u64, U8Gap>, Tuple3<bool, bool, bool>,
        Tuple3<u8, &'static u64, bool>, Tuple4<bool, u16, bool, CSeq>, Tuple5<u8, bool, u32, bool, &'static u16>,
        Tuple6<u8, bool, u16, bool, u32, bool>, Tuple6<bool, bool, bool, bool, bool, bool>, Tuple2<Tuple2<bool, u8>, Tuple1<I8Neg>>,
        ArcDynFn0<u8>, ArcDynFn1<bool, u8>, ArcDynFn4<(), u8, u16, u32, u64>, ArcDynFn9<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>,
        BoxDynFnMut0<()>, BoxDynFnMut2<u8, u8, bool>, BoxDynFnMut9<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>,
        RefDynFnMut0<'static, ()>, RefDynFnMut3<'static, u8, u8, bool, u16>,
        VirtualPtr<dyn 'static + Tr0>, VirtualPtr<dyn 'static + Tr2>, VirtualPtr<dyn 'static + TrC>, VirtualPtr<dyn 'static + Send + Sync + TrC>, ByVal,
        safer_ffi::bytes::BytesVt, safer_ffi::bytes::Bytes<'static>,
        [bool; 1], [bool; 2], [bool; 3], [bool; 4], [bool; 5], [bool; 8], [bool; 16], [bool; 31], [bool; 32], [bool; 64], [bool; 100], [bool; 256],
        [U16Wide; 3], [&'static u16; 2], [&'static u16; 8], [[bool; 2]; 3], [[bool; 8]; 2], [Pair; 3], [Last; 2], [Tuple2<u8, bool>; 16], [extern "C" fn(); 2],
        TaggedOption<u8>, TaggedOption<bool>, TaggedOption<u64>, TaggedOption<U16Wide>, TaggedOption<&'static u32>, TaggedOption<Pair>, TaggedOption<Last>,
        TaggedOption<TaggedOption<bool>>, TaggedOption<[bool; 3]>, TaggedOption<slice::slice_ref<'static, u16>>, TaggedOption<Option<&'static u16>>,
        TaggedOption<repr_c::Vec<u8>>,
    ];
    #[cfg(feature = "stabby")]
    v.extend(list![
        stabby::boxed::Box<u8>, stabby::boxed::Box<u64>, stabby::sync::Arc<u8>, stabby::sync::Arc<u32>, stabby::sync::Weak<u16>,
        stabby::boxed::BoxedSlice<u8>, stabby::boxed::BoxedSlice<u32>, stabby::sync::ArcSlice<u16>, stabby::sync::WeakSlice<u64>,
        stabby::boxed::BoxedStr, stabby::sync::ArcStr, safer_ffi::stabby::Stabbied<bool>,
    ]);
    v
}
/// Optional values: also of the types of C10.
macro_rules! options {( $( $T:ty ),* $(,)? ) => ( vec![ $( (stringify!(Option<$T>), check::<Option<$T>> as Body, opt::niche::<$T> as Body) ),* ] )}
pub fn optionals() -> Vec<(&'static str, Body, Body)> {
    #[allow(unused_mut)]
    let mut v = options![
        &'static u8, &'static u16, &'static Big, &'static Op64, &'static mut u8, &'static mut u32, &'static mut Op64,
        std::ptr::NonNull<u16>, ptr::NonNullRef<u8>, ptr::NonNullMut<u64>, ptr::NonNullOwned<u16>,
        Box_<u8>, Box_<Big>, Box_<Op64>, char_p::Ref<'static>, char_p::Raw, char_p::Box,
        Out<'static, u8>, Out<'static, u32>,
        extern "C" fn(), unsafe extern "C" fn(bool) -> bool, extern "C" fn(u8, u16, u32, u64) -> Big,
        extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8, u8) -> f64, extern "C" fn(extern "C" fn(u8) -> u8) -> bool, Callback, CallbackLt,
        slice::slice_ref<'static, u8>, slice::slice_ref<'static, Big>, slice::slice_mut<'static, u32>, slice::slice_raw<u16>, slice::slice_boxed<u32>,
        repr_c::Vec<u8>, repr_c::Vec<Big>, repr_c::String, str::Ref<'static>, str::Box,
        BoxDynFnMut0<()>, BoxDynFnMut2<u8, u8, bool>, BoxDynFnMut9<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>,
        VirtualPtr<dyn 'static + Tr0>, VirtualPtr<dyn 'static + Tr2>, VirtualPtr<dyn 'static + Send + Sync + TrC>,
        TrRef, TrRenamed, TrTr, TrGen<&'static u16>, TrGen<TrGen<&'static u64>>, TrPh<'static>, TrSlice,
        safer_ffi::bytes::Bytes<'static>,
    ];
    #[cfg(feature = "stabby")]
    v.extend(options![
        stabby::boxed::Box<u8>, stabby::boxed::Box<u64>, stabby::sync::Arc<u8>, stabby::sync::Arc<u32>, stabby::sync::Weak<u16>,
    ]);
    v
}

fn each(s: &mut Session, phase: &str, v: Vec<(&'static str, Body)>) {
    s.phase(phase, v.len(), |c| {
        let (name, f) = v[c.top];
        c.log(|| format!("type {name}"));
        f(c)
    })
}

fn main() {
    // (The code under test prints a line for every invalid struct.)
    unsafe {
        let null = libc::open("/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
        libc::dup2(null, 2);
    }
    let mut s = vc::Session::new();
    match &*s.args.property {
        "C10" => {
            each(&mut s, "leaves", leaves());
            each(&mut s, "aggregates", aggregates());
            each(&mut s, "optionals", optionals().into_iter().map(|(n, f, _)| (n, f)).collect());
            if s.args.thorough {
                // All 2^32 patterns of the four-byte enums.
                s.phase("words", 5 * 256, |c| {
                    let chunk = (c.top / 5) as u32;
                    match c.top % 5 {
                        0 => words::<U32Wide>(c, chunk, &[0x1_0000, 7, 8]),
                        1 => words::<U32Ends>(c, chunk, &[0, 0xffff_ffff]),
                        2 => words::<I32Neg>(c, chunk, &[0xffff_ffff, 0x8000_0000, 0x7fff_ffff]),
                        3 => words::<CSeq>(c, chunk, &[0, 1, 2]),
                        _ => words::<CNeg>(c, chunk, &[-2i32 as u32, u32::MAX, 1000]),
                    }
                });
            }
        },
        "C11" => {
            each(&mut s, "niche", optionals().into_iter().map(|(n, _, f)| (n, f)).collect());
            opt::phases(&mut s);
        },
        p => panic!("unknown property {p}"),
    }
    s.finish()
}
