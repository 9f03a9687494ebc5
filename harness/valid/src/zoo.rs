//! For every type under test: the bit patterns to try and what the Rust type says of each, written down independently
//! of the code under test (sizes and offsets follow the C layout rules, enum values are listed by hand).
use safer_ffi::boxed::Box_;
use safer_ffi::closure::*;
use safer_ffi::layout::{CLayoutOf, ConcreteReprC, Opaque, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use safer_ffi::ptr;
use safer_ffi::slice;
use safer_ffi::tuple::*;
use std::mem::{align_of, size_of};

#[derive(Clone, Debug)]
pub struct Pat {
    pub bytes: Vec<u8>,
    pub legal: bool,
    /// This is the pattern an absent value has.
    pub niche: bool,
}
pub fn pat(bytes: impl Into<Vec<u8>>, legal: bool) -> Pat {
    Pat { bytes: bytes.into(), legal, niche: false }
}
pub trait Zoo: ReprC {
    /// Everything to try.
    fn all() -> Vec<Pat>;
    /// A few of them, of every kind, for use in aggregates.
    fn reps() -> Vec<Pat> {
        Self::all()
    }
    /// Which bytes carry the value (the others are padding).
    fn mask() -> Vec<bool> {
        vec![true; size_of::<CLayoutOf<Self>>()]
    }
}

#[repr(align(4096))]
struct Page(#[allow(dead_code)] [u8; 8192]);
static PAGE: Page = Page([0; 8192]);
pub fn page() -> usize {
    &PAGE as *const Page as usize
}
pub fn word(n: usize) -> Vec<u8> {
    n.to_ne_bytes().to_vec()
}

// == Integers, floats, raw pointers: anything goes.
macro_rules! any {( $($T:ty),* ) => ( $(
    impl Zoo for $T {
        fn all() -> Vec<Pat> {
            let n = size_of::<$T>();
            let mut v = vec![];
            for fill in 0..=255u8 { v.push(pat(vec![fill; n], true)); }
            for i in 0..n { for b in [1u8, 0x7f, 0x80, 0xff] { let mut x = vec![0u8; n]; x[i] = b; v.push(pat(x, true)); } }
            v
        }
        fn reps() -> Vec<Pat> {
            let n = size_of::<$T>();
            vec![pat(vec![0; n], true), pat(vec![0xff; n], true), pat((1..=n as u8).collect::<Vec<_>>(), true)]
        }
    }
)*)}
any!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64, safer_ffi::c_char, safer_ffi::c_int);
any!(*const u8, *mut u8, *const u32, *mut u64, *const bool, *mut Pair, *const *const u16, *mut Big);

impl Zoo for bool {
    fn all() -> Vec<Pat> {
        (0..=255u8).map(|b| pat([b], b <= 1)).collect()
    }
    fn reps() -> Vec<Pat> {
        [0, 1, 2, 0x80, 0x81, 0xff].iter().map(|&b| pat([b], b <= 1)).collect()
    }
}

// == Enums: the values are listed, so that what the attribute macro computes has something to be compared with.
fn enum_pats(size: usize, values: &[i128], few: bool) -> Vec<Pat> {
    let bits = size * 8;
    let cut = |v: i128| v & ((1i128 << bits) - 1);
    let legal: Vec<i128> = values.iter().map(|&v| cut(v)).collect();
    let mut tries: Vec<i128> = vec![];
    if bits <= 16 && !few {
        tries.extend(0..1i128 << bits);
    } else {
        for &v in values {
            tries.extend([v, v - 1, v + 1, -v, !v]);
            if !few {
                for b in 0..bits {
                    tries.push(v ^ (1 << b));
                }
                for b in [8, 16, 32] {
                    if b < bits {
                        tries.extend([v & ((1 << b) - 1), v | (-1i128 << b), v | (1 << b), v << b]);
                    }
                }
            }
        }
        tries.extend([0, 1, -1, 1 << (bits - 1), (1 << (bits - 1)) - 1]);
        if !few {
            tries.extend(-300..300);
        }
    }
    let mut tries: Vec<i128> = tries.into_iter().map(cut).collect();
    tries.sort();
    tries.dedup();
    tries.into_iter().map(|t| pat(t.to_le_bytes()[..size].to_vec(), legal.contains(&t))).collect()
}
macro_rules! enums {( $( [$($repr:tt)*] $size:literal $T:ident { $($V:ident $(= $d:expr)?),* } [ $($val:expr),* ] )* ) => ( $(
    #[derive_ReprC] #[$($repr)*]
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[allow(dead_code, nonstandard_style)]
    pub enum $T { $($V $(= $d)?),* }
    impl Zoo for $T {
        fn all() -> Vec<Pat> { enum_pats($size, &[$($val),*], false) }
        fn reps() -> Vec<Pat> { enum_pats($size, &[$($val),*], true).into_iter().enumerate().filter(|(i, p)| p.legal || i % 3 == 0).map(|x| x.1).take(7).collect() }
    }
)*)}
const K: u8 = 40;
enums! {
    [repr(u8)] 1 U8One { A } [0]
    [repr(u8)] 1 U8Seq { A, B, C } [0, 1, 2]
    [repr(u8)] 1 U8Gap { A = 3, B, C = 200, D } [3, 4, 200, 201]
    [repr(u8)] 1 U8Rev { A = 9, B = 5, C, D = 0 } [9, 5, 6, 0]
    [repr(u8)] 1 U8Const { A = K, B = K + 2, C } [40, 42, 43]
    [repr(u8)] 1 U8Ends { Lo = 0, Hi = 255 } [0, 255]
    [repr(i8)] 1 I8Neg { A = -1, B, C } [-1, 0, 1]
    [repr(i8)] 1 I8Ends { A = -128, B = 127, C = 5 } [-128, 127, 5]
    [repr(u16)] 2 U16Seq { A, B } [0, 1]
    [repr(u16)] 2 U16Wide { A = 256, B, C = 0xffff, D = 0x0100 + 7 } [256, 257, 0xffff, 0x107]
    [repr(i16)] 2 I16Neg { A = -300, B, C = 300 } [-300, -299, 300]
    [repr(u32)] 4 U32Wide { A = 0x1_0000, B = 7, C } [0x1_0000, 7, 8]
    [repr(u32)] 4 U32Ends { A = 0, B = 0xffff_ffff } [0, 0xffff_ffff]
    [repr(i32)] 4 I32Neg { A = -1, B = -0x8000_0000, C = 0x7fff_ffff } [-1, -0x8000_0000, 0x7fff_ffff]
    [repr(u64)] 8 U64Wide { A = 0x1_0000_0000, B, C = 0 } [0x1_0000_0000, 0x1_0000_0001, 0]
    [repr(u64)] 8 U64Ends { A = 0xffff_ffff_ffff_ffff, B = 1 } [0xffff_ffff_ffff_ffff, 1]
    [repr(i64)] 8 I64Neg { A = -1, B = -0x1_0000_0001, C = 3 } [-1, -0x1_0000_0001, 3]
    [repr(C)] 4 CSeq { A, B, C } [0, 1, 2]
    [repr(C)] 4 CNeg { A = -2, B, C = 1000 } [-2, -1, 1000]
    //     [repr(C, u8)] 1 CU8 { A = 1, B } [1, 2]
    //     [repr(i16, C)] 2 I16C { A = -1, B } [-1, 0]
}

// == Pointers.
pub fn pointers(align: usize, nullable: bool, few: bool) -> Vec<Pat> {
    let p = page();
    let mut v = vec![Pat { bytes: word(0), legal: nullable, niche: true }];
    let mut add = |a: usize| v.push(pat(word(a), a % align == 0));
    if few {
        add(p);
        add(p + align);
        if align > 1 {
            add(p + 1);
            add(p + align / 2);
        }
    } else {
        for a in 1..=2 * align {
            add(a);
        }
        for a in 0..=2 * align {
            add(p + a);
        }
        for a in 0..=align {
            add(usize::MAX - a);
        }
        for b in 0..64 {
            add(1usize << b);
        }
    }
    v
}
macro_rules! pointers {( $( $T:ty: $align:expr ),* $(,)? ) => ( $(
    impl Zoo for $T {
        fn all() -> Vec<Pat> { pointers($align, false, false) }
        fn reps() -> Vec<Pat> { pointers($align, false, true) }
    }
)*)}
#[derive_ReprC]
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct Pair {
    pub a: u8,
    pub b: bool,
}
#[derive_ReprC]
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct Big {
    pub a: u8,
    pub b: u64,
    pub c: U16Seq,
}
/// Over-aligned, and only ever seen through a pointer.
#[derive_ReprC]
#[repr(opaque)]
#[repr(align(64))]
pub struct Op64 {
    #[allow(dead_code)]
    x: u8,
}
#[derive_ReprC]
#[repr(opaque)]
pub struct Op1 {
    #[allow(dead_code)]
    x: [u8; 3],
}
#[derive_ReprC]
#[repr(opaque)]
pub struct OpGen<T> {
    #[allow(dead_code)]
    x: Vec<T>,
}
pointers! {
    &'static u8: 1, &'static u16: 2, &'static u32: 4, &'static u64: 8, &'static bool: 1, &'static f64: 8, &'static [u16; 3]: 2,
    &'static Pair: 1, &'static Big: 8, &'static Op64: 64, &'static Op1: 1, &'static OpGen<u8>: 8, &'static U32Wide: 4, &'static Opaque<u16>: 2,
    &'static Vec<u8>: 8, &'static String: 8, &'static &'static str: 8, &'static std::sync::Arc<u8>: 8,
    &'static &'static u8: 8, &'static Tuple2<u8, u32>: 4,
    &'static mut u8: 1, &'static mut u32: 4, &'static mut Big: 8, &'static mut Op64: 64, &'static mut &'static mut u16: 8,
    std::ptr::NonNull<u8>: 1, std::ptr::NonNull<u16>: 2, std::ptr::NonNull<Big>: 8, std::ptr::NonNull<Op64>: 64,
    ptr::NonNullRef<u8>: 1, ptr::NonNullRef<u32>: 4, ptr::NonNullRef<Op64>: 64,
    ptr::NonNullMut<u8>: 1, ptr::NonNullMut<u64>: 8, ptr::NonNullMut<Op64>: 64,
    ptr::NonNullOwned<u8>: 1, ptr::NonNullOwned<u16>: 2, ptr::NonNullOwned<Op64>: 64,
    Box_<u8>: 1, Box_<u64>: 8, Box_<Big>: 8, Box_<Op64>: 64, Box_<Pair>: 1,
    char_p::Ref<'static>: 1, char_p::Raw: 1, char_p::Box: 1,
    Out<'static, u8>: 1, Out<'static, u32>: 4, Out<'static, Big>: 8,
}
// Function pointers: null or not.
fn fptr() -> Vec<Pat> {
    let p = word(fptr as fn() -> Vec<Pat> as usize);
    vec![Pat { bytes: word(0), legal: false, niche: true }, pat(p, true), pat(word(1), true), pat(word(usize::MAX), true)]
}
macro_rules! fptrs {( $( $T:ty ),* $(,)? ) => ( $( impl Zoo for $T { fn all() -> Vec<Pat> { fptr() } fn reps() -> Vec<Pat> { fptr().into_iter().take(2).collect() } } )*)}
fptrs! {
    extern "C" fn(u8) -> u8, extern "C" fn(), unsafe extern "C" fn(), extern "C" fn() -> u8, extern "C" fn(u8), unsafe extern "C" fn(bool) -> bool,
    extern "C" fn(u8, u16) -> u32, extern "C" fn(u8, u16, u32), extern "C" fn(u8, u16, u32, u64) -> Big, extern "C" fn(u8, u8, u8, u8, u8),
    extern "C" fn(u8, u8, u8, u8, u8, u8) -> i8, extern "C" fn(u8, u8, u8, u8, u8, u8, u8), unsafe extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8),
    extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8, u8) -> f64, unsafe extern "C" fn(&'static u8, Box_<u8>) -> Option<&'static u16>,
    extern "C" fn(extern "C" fn(u8) -> u8) -> bool,
    Callback, CallbackLt,
}
#[derive_ReprC]
#[repr(transparent)]
pub struct Callback(pub extern "C" fn(u8, &'_ u16) -> bool);
#[derive_ReprC]
#[repr(transparent)]
pub struct CallbackLt(pub unsafe extern "C" fn(char_p::Ref<'_>));

// == Aggregates.
pub struct Field {
    pub size: usize,
    pub align: usize,
    pub reps: Vec<Pat>,
    pub mask: Vec<bool>,
}
pub fn field<T: Zoo>() -> Field {
    Field { size: size_of::<CLayoutOf<T>>(), align: align_of::<CLayoutOf<T>>(), reps: T::reps(), mask: T::mask() }
}
fn up(n: usize, a: usize) -> usize {
    (n + a - 1) / a * a
}
pub fn offsets(fields: &[Field]) -> (Vec<usize>, usize) {
    let (mut at, mut align, mut v) = (0, 1, vec![]);
    for f in fields {
        at = up(at, f.align);
        v.push(at);
        at += f.size;
        align = align.max(f.align);
    }
    (v, up(at, align))
}
/// Every combination of the fields' representatives (the niche is that of the first field, if any).
pub fn compose(fields: &[Field]) -> Vec<Pat> {
    let (offsets, size) = offsets(fields);
    let total: usize = fields.iter().map(|f| f.reps.len()).product();
    let mut out = vec![];
    let mut push = |ix: &[usize]| {
        for fill in [0u8, 0xff] {
            let mut p = Pat { bytes: vec![fill; size], legal: true, niche: false };
            for ((f, &o), &i) in fields.iter().zip(&offsets).zip(ix) {
                let r = &f.reps[i];
                p.bytes[o..o + f.size].copy_from_slice(&r.bytes);
                p.legal &= r.legal;
            }
            p.niche = fields.first().map_or(false, |f| f.reps[ix[0]].niche);
            out.push(p);
        }
    };
    if total <= 20_000 {
        let mut ix = vec![0; fields.len()];
        loop {
            push(&ix);
            let mut i = 0;
            while i < ix.len() {
                ix[i] += 1;
                if ix[i] < fields[i].reps.len() {
                    break;
                }
                ix[i] = 0;
                i += 1;
            }
            if i == ix.len() {
                break;
            }
        }
    } else {
        // Every pair of fields in every combination, the others legal.
        let good: Vec<usize> = fields.iter().map(|f| f.reps.iter().position(|p| p.legal).unwrap()).collect();
        for a in 0..fields.len() {
            for b in 0..a {
                for i in 0..fields[a].reps.len() {
                    for j in 0..fields[b].reps.len() {
                        let mut ix = good.clone();
                        ix[a] = i;
                        ix[b] = j;
                        push(&ix);
                    }
                }
            }
        }
    }
    out
}
pub fn compose_mask(fields: &[Field]) -> Vec<bool> {
    let (offsets, size) = offsets(fields);
    let mut m = vec![false; size];
    for (f, o) in fields.iter().zip(offsets) {
        m[o..o + f.size].copy_from_slice(&f.mask);
    }
    m
}
/// One of each class, for nesting.
fn thin(v: Vec<Pat>) -> Vec<Pat> {
    let mut out: Vec<Pat> = v.iter().filter(|p| p.legal).take(2).cloned().collect();
    let bad: Vec<Pat> = v.iter().filter(|p| !p.legal).cloned().collect();
    out.extend(bad.iter().take(3).cloned());
    out.extend(bad.iter().rev().take(2).cloned());
    out
}
macro_rules! agg {( $( [$($g:tt)*] $T:ty: $($F:ty),* ; )* ) => ( $(
    impl<$($g)*> Zoo for $T {
        fn all() -> Vec<Pat> { compose(&[$(field::<$F>()),*]) }
        fn reps() -> Vec<Pat> { thin(Self::all()) }
        fn mask() -> Vec<bool> { compose_mask(&[$(field::<$F>()),*]) }
    }
)*)}

#[derive_ReprC]
#[repr(C)]
pub struct OneBool {
    pub x: bool,
}
#[derive_ReprC]
#[repr(C)]
pub struct Last {
    pub a: u32,
    pub b: u8,
    pub c: U8Gap,
    pub d: bool,
}
#[derive_ReprC]
#[repr(C)]
pub struct Middle {
    pub a: &'static u16,
    pub b: bool,
    pub c: u64,
}
#[derive_ReprC]
#[repr(C)]
pub struct Nest {
    pub x: u8,
    pub last: Last,
    pub m: Middle,
}
#[derive_ReprC]
#[repr(C)]
pub struct Nest3 {
    pub n: Nest,
    pub z: OneBool,
}
#[derive_ReprC]
#[repr(C)]
pub struct Gen<T, U> {
    pub t: T,
    pub n: i16,
    pub u: U,
}
#[derive_ReprC]
#[repr(C)]
pub struct WithFn {
    pub ctx: *mut u8,
    pub f: extern "C" fn(u8) -> u8,
    pub g: Option<extern "C" fn(u8) -> u8>,
    pub e: CNeg,
}
#[derive_ReprC]
#[repr(C)]
pub struct WithLt<'a> {
    pub s: slice::slice_ref<'a, u16>,
    pub b: Option<&'a bool>,
    pub c: char_p::Ref<'a>,
}
#[derive_ReprC]
#[repr(C)]
pub struct Phantom<T> {
    pub a: bool,
    pub p: std::marker::PhantomData<T>,
    pub b: bool,
}
#[derive_ReprC]
#[repr(C)]
pub struct Many {
    pub a: bool,
    pub b: bool,
    pub c: bool,
    pub d: bool,
    pub e: bool,
    pub f: bool,
    pub g: bool,
    pub h: bool,
    pub i: bool,
    pub j: bool,
}
#[derive_ReprC]
#[repr(transparent)]
pub struct TrBool(pub bool);
#[derive_ReprC]
#[repr(transparent)]
pub struct TrRef(pub &'static u32);
#[derive_ReprC(rename = "tr_renamed")]
#[repr(transparent)]
pub struct TrRenamed(pub &'static u32);
#[derive_ReprC(rename = "tr_enum")]
#[repr(transparent)]
pub struct TrEnum {
    pub e: U16Wide,
}
#[derive_ReprC]
#[repr(transparent)]
pub struct TrTr(pub TrRef);
#[derive_ReprC]
#[repr(transparent)]
pub struct TrGen<T>(pub T);
#[derive_ReprC]
#[repr(transparent)]
pub struct TrPh<'a>(pub char_p::Raw, pub std::marker::PhantomData<&'a u8>);
#[derive_ReprC]
#[repr(transparent)]
pub struct TrStruct(pub Last);
#[derive_ReprC]
#[repr(transparent)]
pub struct TrSlice(pub slice::slice_boxed<u32>);

type R<T> = ptr::NonNullOwned<T>;
agg! {
    [] Pair: u8, bool;
    [] Big: u8, u64, U16Seq;
    [] OneBool: bool;
    [] Last: u32, u8, U8Gap, bool;
    [] Middle: &'static u16, bool, u64;
    [] Nest: u8, Last, Middle;
    [] Nest3: Nest, OneBool;
    [T: Zoo + ConcreteReprC, U: Zoo + ConcreteReprC] Gen<T, U>: T, i16, U;
    [] WithFn: *mut u8, extern "C" fn(u8) -> u8, Option<extern "C" fn(u8) -> u8>, CNeg;
    [] WithLt<'static>: slice::slice_ref<'static, u16>, Option<&'static bool>, char_p::Ref<'static>;
    [T: ConcreteReprC + 'static] Phantom<T>: bool, bool;
    [] Many: bool, bool, bool, bool, bool, bool, bool, bool, bool, bool;
    [] TrBool: bool;
    [] TrRef: &'static u32;
    [] TrRenamed: &'static u32;
    [] TrEnum: U16Wide;
    [] TrTr: &'static u32;
    [T: Zoo + ConcreteReprC] TrGen<T>: T;
    [] TrPh<'static>: char_p::Raw;
    [] TrStruct: Last;
    [] TrSlice: slice::slice_boxed<u32>;
    // Containers: a pointer to the element type, then sizes.
    [] slice::slice_ref<'static, u8>: R<u8>, usize;
    [] slice::slice_ref<'static, u16>: R<u16>, usize;
    [] slice::slice_ref<'static, Big>: R<Big>, usize;
    [] slice::slice_mut<'static, u32>: R<u16x2>, usize;
    [] slice::slice_mut<'static, bool>: R<u8>, usize;
    [] slice::slice_raw<u16>: R<u16>, usize;
    [] slice::slice_raw<Op64>: R<Op64>, usize;
    [] slice::slice_boxed<u32>: R<u16x2>, usize;
    [] slice::slice_boxed<Pair>: R<u8>, usize;
    [] repr_c::Vec<u8>: R<u8>, usize, usize;
    [] repr_c::Vec<u32>: R<u16x2>, usize, usize;
    [] repr_c::Vec<Big>: R<Big>, usize, usize;
    [] repr_c::String: R<u8>, usize, usize;
    [] str::Ref<'static>: R<u8>, usize;
    [] str::Box: R<u8>, usize;
    [T0: Zoo + ConcreteReprC] Tuple1<T0>: T0;
    [T0: Zoo + ConcreteReprC, T1: Zoo + ConcreteReprC] Tuple2<T0, T1>: T0, T1;
    [T0: Zoo + ConcreteReprC, T1: Zoo + ConcreteReprC, T2: Zoo + ConcreteReprC] Tuple3<T0, T1, T2>: T0, T1, T2;
    [T0: Zoo + ConcreteReprC, T1: Zoo + ConcreteReprC, T2: Zoo + ConcreteReprC, T3: Zoo + ConcreteReprC] Tuple4<T0, T1, T2, T3>: T0, T1, T2, T3;
    [T0: Zoo + ConcreteReprC, T1: Zoo + ConcreteReprC, T2: Zoo + ConcreteReprC, T3: Zoo + ConcreteReprC, T4: Zoo + ConcreteReprC] Tuple5<T0, T1, T2, T3, T4>: T0, T1, T2, T3, T4;
    [T0: Zoo + ConcreteReprC, T1: Zoo + ConcreteReprC, T2: Zoo + ConcreteReprC, T3: Zoo + ConcreteReprC, T4: Zoo + ConcreteReprC, T5: Zoo + ConcreteReprC] Tuple6<T0, T1, T2, T3, T4, T5>: T0, T1, T2, T3, T4, T5;
    // Closures.
    [] ArcDynFn0<u8>: R<u8>, F, F, OF;
    [] ArcDynFn1<bool, u8>: R<u8>, F, F, OF;
    [] ArcDynFn4<(), u8, u16, u32, u64>: R<u8>, F, F, OF;
    [] ArcDynFn9<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>: R<u8>, F, F, OF;
    [] BoxDynFnMut0<()>: R<u8>, OF, OF;
    [] BoxDynFnMut2<u8, u8, bool>: R<u8>, OF, OF;
    [] BoxDynFnMut9<u8, u8, u8, u8, u8, u8, u8, u8, u8, u8>: R<u8>, OF, OF;
    [] RefDynFnMut0<'static, ()>: R<u8>, F;
    [] RefDynFnMut3<'static, u8, u8, bool, u16>: R<u8>, F;
    // Virtual objects: the pointer, then the table of functions.
    [] VirtualPtr<dyn 'static + Tr0>: R<u8>, F;
    [] VirtualPtr<dyn 'static + Tr2>: R<u8>, F, F, F;
    [] VirtualPtr<dyn 'static + TrC>: R<u8>, F, F, F;
    [] VirtualPtr<dyn 'static + Send + Sync + TrC>: R<u8>, F, F, F;
    [] safer_ffi::bytes::BytesVt: OF, OF;
    [] ByVal: u8, VirtualPtr<dyn 'static + Tr2>, bool;
}
type F = unsafe extern "C" fn();
type OF = Option<unsafe extern "C" fn()>;
/// (An element of alignment 4 that has a pointer in the list above.)
#[allow(non_camel_case_types)]
pub type u16x2 = u32;
pointers! { R<u32>: 4, R<Big>: 8 }

impl Zoo for safer_ffi::bytes::Bytes<'static> {
    fn all() -> Vec<Pat> {
        let mut v = vec![];
        for a in [0usize, 1, usize::MAX] {
            for b in [0usize, 1, usize::MAX] {
                // The last word is a non-null pointer, or the length of inlined bytes.
                for vt in [0usize, 1, 2, 3, 0x41, 0x100, 1 << 63, page(), usize::MAX] {
                    let mut x = vec![];
                    for w in [a, b, b, a, vt] {
                        x.extend(word(w));
                    }
                    v.push(Pat { bytes: x, legal: vt != 0, niche: vt == 0 });
                }
            }
        }
        v
    }
}

#[derive_ReprC(dyn)]
pub trait Tr0 {}
#[derive_ReprC(dyn)]
pub trait Tr2 {
    fn a(&self, x: u8) -> u8;
    fn b(&mut self);
}
#[derive_ReprC(dyn, Clone)]
pub trait TrC {
    fn a(&self) -> u64;
}
#[derive_ReprC]
#[repr(C)]
pub struct ByVal {
    pub x: u8,
    pub v: VirtualPtr<dyn 'static + Tr2>,
    pub b: bool,
}

// == Arrays.
macro_rules! arrays {( $( $n:literal ),* ) => ( $(
    impl<T: Zoo> Zoo for [T; $n] {
        fn all() -> Vec<Pat> {
            if $n <= 5 { compose(&(0..$n).map(|_| field::<T>()).collect::<Vec<_>>()) } else {
                // Each place in turn, with every representative, the others legal.
                let f = field::<T>();
                let good = f.reps.iter().find(|p| p.legal).unwrap();
                let mut v = vec![pat(good.bytes.repeat($n), true)];
                for i in 0..$n { for r in &f.reps {
                    let mut b = good.bytes.repeat($n);
                    b[i * f.size..(i + 1) * f.size].copy_from_slice(&r.bytes);
                    v.push(pat(b, r.legal));
                } }
                v
            }
        }
        fn reps() -> Vec<Pat> { thin(Self::all()) }
        fn mask() -> Vec<bool> { T::mask().repeat($n) }
    }
)*)}
arrays!(1, 2, 3, 4, 5, 8, 16, 31, 32, 64, 100, 256);

// == Optional values.
pub fn opt(v: Vec<Pat>) -> Vec<Pat> {
    v.into_iter().map(|p| Pat { legal: p.legal || p.niche, niche: false, bytes: p.bytes }).collect()
}
impl<T: Zoo> Zoo for Option<T>
where
    Option<T>: ReprC<CLayout = CLayoutOf<T>>,
{
    fn all() -> Vec<Pat> {
        opt(T::all())
    }
    fn reps() -> Vec<Pat> {
        opt(T::reps())
    }
    fn mask() -> Vec<bool> {
        T::mask()
    }
}
impl<T: Zoo + ConcreteReprC> Zoo for TaggedOption<T>
where
    TaggedOption<T>: ReprC,
{
    fn all() -> Vec<Pat> {
        let f = field::<T>();
        let at = f.align;
        let size = up(at + f.size, f.align);
        let mut v = vec![];
        for tag in 0..=255u8 {
            for p in &f.reps {
                let mut b = vec![0u8; size];
                b[0] = tag;
                b[at..at + f.size].copy_from_slice(&p.bytes);
                v.push(pat(b, tag == 0 || (tag == 1 && p.legal)));
            }
        }
        v
    }
    fn reps() -> Vec<Pat> {
        let v = Self::all();
        let k = T::reps().len();
        v.into_iter().take(3 * k).collect()
    }
    fn mask() -> Vec<bool> {
        let f = field::<T>();
        let mut m = vec![false; up(f.align + f.size, f.align)];
        m[0] = true;
        m
    }
}

#[cfg(feature = "stabby")]
mod with_stabby {
    use super::*;
    use safer_ffi::stabby::Stabbied;
    fn ends(align: usize) -> Vec<Pat> {
        let (a, b) = (pointers(align, false, true), pointers(align, false, true));
        let mut v = vec![];
        for x in &a {
            for y in &b {
                v.push(pat([x.bytes.clone(), y.bytes.clone()].concat(), x.legal && y.legal));
            }
        }
        v
    }
    pointers! {
        stabby::boxed::Box<u8>: 1, stabby::boxed::Box<u64>: 8, stabby::sync::Arc<u8>: 1, stabby::sync::Arc<u32>: 4, stabby::sync::Weak<u16>: 2,
    }
    macro_rules! ends {( $( $T:ty: $align:expr ),* ) => ( $( impl Zoo for $T { fn all() -> Vec<Pat> { ends($align) } } )* )}
    ends!(stabby::boxed::BoxedSlice<u8>: 1, stabby::boxed::BoxedSlice<u32>: 4, stabby::sync::ArcSlice<u16>: 2, stabby::sync::WeakSlice<u64>: 8, stabby::boxed::BoxedStr: 1, stabby::sync::ArcStr: 1);
    impl Zoo for Stabbied<bool> {
        fn all() -> Vec<Pat> {
            bool::all()
        }
    }
}
