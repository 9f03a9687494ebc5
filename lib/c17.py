"""C17: which programs does the compiler accept? All programs of several bounded grammars, each predicted by a reference model."""
import collections
import itertools
import os
import re
import shutil

import driver
import sf
from rustjudge import PreludeRejected, Program, judge

PRELUDE = r'''
pub use ::safer_ffi::{self, prelude::*, closure::*, layout::*, bytes::Bytes, dyn_traits::VirtualPtrFrom, option::TaggedOption, Tuple2};
pub use ::std::{cell::Cell, marker::PhantomData, pin::Pin, rc::Rc, sync::Arc};
pub type StdBox<T> = ::std::boxed::Box<T>;
pub type StdString = ::std::string::String;
pub type StdVec<T> = ::std::vec::Vec<T>;
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Leaf { pub x: u8, pub y: u32 }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum Color { Red, Green }
#[derive_ReprC] #[repr(opaque)] pub struct Op { x: StdString }
#[derive_ReprC] #[repr(C)] pub struct Gen<T> { pub a: T, pub b: u8 }
#[derive_ReprC] #[repr(transparent)] pub struct New<T>(pub T);
pub struct Plain(pub u8);
#[derive_ReprC(dyn)] pub trait Tr { fn f(&self) -> u8; }
impl Tr for u8 { fn f(&self) -> u8 { 0 } }
impl Tr for &'_ u8 { fn f(&self) -> u8 { 0 } }
pub fn use_<T>(_: T) {}
pub fn some<T>() -> T { loop {} }
pub use ::safer_ffi::prelude::AsOut as _;
'''

# ---------------------------------------------------------------- types in positions

C, O, X = "concrete", "opaque", "not FFI-compatible"
LEAVES = {
    C: ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool", "::safer_ffi::c_char", "::safer_ffi::c_int", "Leaf", "Color",
        "repr_c::Box<[u8]>", "repr_c::String", "str::Ref<'static>", "str::Box", "char_p::Ref<'static>", "char_p::Box", "Bytes<'static>", "VirtualPtr<dyn Tr>", "VirtualPtr<dyn Send + Sync + Tr>"],
    O: ["Op", "StdString", "&'static str"],
    X: ["u128", "i128", "char", "Plain", "(u8, u16)", "Option<u8>", "Result<u8, u8>", "[u8; 0]", "[u8; 129]", "fn(u8) -> u8", "extern \"Rust\" fn()", "unsafe fn()", "extern \"system\" fn()", "unsafe extern \"C\" fn(u8, ...)",
        "Cell<u8>", "::core::num::NonZeroU8", "::core::mem::MaybeUninit<u8>", "::core::mem::ManuallyDrop<u8>", "::std::ffi::CString", "::std::time::Duration",
        "::core::cmp::Ordering", "::core::convert::Infallible", "dyn Tr", "StdBox<dyn Tr>", "&'static dyn Tr", "VirtualPtr<u8>", "VirtualPtr<dyn Send>", "repr_c::Box<dyn FnMut()>", "Option<()>", "Option<bool>", "Option<Color>"],
}
# name -> (Rust, by value?, has a niche?, what `T` may be, kind of the result given the kind of T)
CONSTRUCTORS = {
    "*const": ("*const {}", (C, O), C, False),
    "*mut": ("*mut {}", (C, O), C, False),
    "&": ("&'static {}", (C, O), C, True),
    "&mut": ("&'static mut {}", (C, O), C, True),
    "Box": ("repr_c::Box<{}>", (C, O), C, True),
    "Vec": ("repr_c::Vec<{}>", (C, O), C, True),
    "slice Ref": ("c_slice::Ref<'static, {}>", (C, O), C, True),
    "slice Mut": ("c_slice::Mut<'static, {}>", (C, O), C, True),
    "slice Box": ("c_slice::Box<{}>", (C, O), C, True),
    "Out": ("Out<'static, {}>", (C, O), C, True),
    "array": ("[{}; 2]", (C, O), None, False),
    "fn(T)": ("extern \"C\" fn({})", (C,), C, True),
    "fn() -> T": ("extern \"C\" fn() -> {}", (C,), C, True),
    "closure(T)": ("BoxDynFnMut1<(), {}>", (C,), C, True),
    "-> closure": ("ArcDynFn0<{}>", (C,), C, False),
    "Gen": ("Gen<{}>", (C,), C, False),
    "New": ("New<{}>", (C, O), None, None),
    "Tuple2": ("Tuple2<u8, {}>", (C,), C, False),
    "TaggedOption": ("TaggedOption<{}>", (C,), C, False),
}
POSITIONS = {
    "field": ("#[derive_ReprC] #[repr(C)] pub struct S {{ pub a: {} }}", (C,)),
    "newtype": ("#[derive_ReprC] #[repr(transparent)] pub struct S(pub {});", (C, O)),
    "parameter": ("#[ffi_export] pub fn p(x: {}) {{ drop(x) }}", (C,)),
    "return": ("#[ffi_export] pub fn r() -> {} {{ loop {{}} }}", (C,)),
    "parameter of a callback": ("#[ffi_export] pub fn c(f: extern \"C\" fn({})) {{}}", (C,)),
    "return of a callback": ("#[ffi_export] pub fn c(f: extern \"C\" fn() -> {}) {{}}", (C,)),
    "behind &": ("#[ffi_export] pub fn q(f: &{}) {{}}", (C, O)),
    "parameter of a method": ("#[derive_ReprC(dyn)] pub trait Tm {{ fn m(&self, x: {}); }} #[ffi_export] pub fn d(x: VirtualPtr<dyn Tm>) {{}}", (C,)),
    "exported": ("#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct S {{ pub k: u8, pub a: {} }}", (C,)),
}


class Term:
    """kind: what the type is for FFI; niche: None if unspecified; leaky: has an opaque type by value in a function pointer."""

    def __init__(self, rust, kind, niche, depth, leaky=False):
        self.rust, self.kind, self.niche, self.depth, self.leaky = rust, kind, niche, depth, leaky


NICHE_LEAVES = {"Bytes<'static>", "repr_c::Box<[u8]>", "repr_c::String", "str::Ref<'static>", "str::Box", "char_p::Ref<'static>", "char_p::Box", "VirtualPtr<dyn Tr>", "VirtualPtr<dyn Send + Sync + Tr>"}
CALLBACKS = ("fn(T)", "fn() -> T", "closure(T)", "-> closure")


def leaves():
    return [Term(t, k, t in NICHE_LEAVES, 0) for k in (C, O, X) for t in LEAVES[k]]


def build(t):
    """Every constructor around t."""
    out = []
    for name, (rust, may, result, niche) in CONSTRUCTORS.items():
        ok = t.kind in may
        kind = (result or t.kind) if ok else X
        out.append(Term(rust.format(t.rust), kind, t.niche if niche is None else niche, t.depth + 1, t.leaky or t.kind == O and name in CALLBACKS))
    if not (t.kind == C and t.rust.startswith("ArcDynFn")):  # no Option of these so far, although there could be
        out.append(Term("Option<%s>" % t.rust, C if t.niche and t.kind == C else X, False, t.depth + 1, t.leaky))
    return out


def types(tier):
    out = []
    base = leaves()
    depth1 = [u for t in base for u in build(t)]
    few = [t for t in base if t.rust in ("u8", "Leaf", "char_p::Ref<'static>", "Op", "u128", "fn(u8) -> u8")]
    depth2 = [v for t in few for u in build(t) for v in build(u)]
    for t in base + depth1 + depth2:
        for pos, (code, may) in POSITIONS.items():
            if tier == "quick" and (t.depth == 2 and pos != "parameter" or t.depth == 1 and pos not in ("field", "return of a callback", "parameter of a method")):
                continue
            p = Program("%s as %s" % (t.rust, pos), code.format(t.rust), t.kind in may, "types")
            if t.leaky or t.kind == O and pos.endswith("callback"):
                p.finding = LEAK
            out.append(p)
    return out


LEAK = "an opaque type by value in the signature of a function pointer or closure"


ZST = "a zero-sized type as a parameter or as the only field"


def verdicts(programs, root, base, emit="metadata", size=120):
    chunks = [programs[i:i + size] for i in range(0, len(programs), size)]

    def one(job):
        i, chunk = job
        return judge(base, chunk, root, PRELUDE, emit=emit, name="j%d" % i)
    verdict = {}
    for v in sf.parallel(one, list(enumerate(chunks))):
        verdict.update(v)
    return verdict


# ---------------------------------------------------------------- the items that derive_ReprC is put on

REPRS = {"none": "", "C": "#[repr(C)]", "transparent": "#[repr(transparent)]", "opaque": "#[repr(opaque)]", "Rust": "#[repr(Rust)]", "u8": "#[repr(u8)]", "i32": "#[repr(i32)]", "i64": "#[repr(i64)]", "C, u8": "#[repr(C, u8)]",
         "u128": "#[repr(u128)]", "packed": "#[repr(packed)]", "C, packed": "#[repr(C, packed)]", "packed, C": "#[repr(packed, C)]", "C, align": "#[repr(C, align(16))]", "align": "#[repr(align(16))]", "C + align": "#[repr(C)] #[repr(align(16))]", "C + packed": "#[repr(C)] #[repr(packed)]", "align + C": "#[repr(align(16))] #[repr(C)]", "simd": "#[repr(simd)]", "()": "#[repr()]", "bogus": "#[repr(bogus)]"}
STRUCTS = {
    "unit": "pub struct S;", "empty": "pub struct S {}", "(u8)": "pub struct S(pub u8);", "(u8, u16)": "pub struct S(pub u8, pub u16);", "(private u8)": "pub struct S(u8);",
    "{u8}": "pub struct S { pub a: u8 }", "{u8, u16}": "pub struct S { pub a: u8, pub b: u16 }", "{u8, phantom}": "pub struct S { pub a: u8, pub b: PhantomData<u16> }",
    "(u8, phantom)": "pub struct S(pub u8, pub PhantomData<u16>);", "private struct": "struct S { a: u8 }", "generic": "pub struct S<T> { pub a: T }", "lifetime": "pub struct S<'a> { pub a: &'a u8 }",
    "(fn)": "pub struct S(pub extern \"C\" fn(u8) -> u8);", "(fn with a lifetime)": "pub struct S(pub extern \"C\" fn(&u8) -> u8);", "(Rust fn)": "pub struct S(pub fn(&u8) -> u8);", "(fn ())": "pub struct S(pub extern \"C\" fn(StdBox<dyn Tr>));",
    "{Plain}": "pub struct S { pub a: Plain }", "(Plain)": "pub struct S(pub Plain);", "{u8, opaque}": "pub struct S { pub a: u8, pub b: Op }", "{opaque, u8}": "pub struct S { pub a: Op, pub b: u8 }", "itself": "pub struct S { pub a: &'static S, pub b: Plain }",
    "enum {}": "pub enum S {}", "enum {A}": "pub enum S { A }", "enum {A, B = 5}": "pub enum S { A, B = 5 }", "enum {A(u8)}": "pub enum S { A(u8), B }", "enum {B, A{}}": "pub enum S { B, A { x: u8 } }", "generic enum": "pub enum S<T> { A, B(PhantomData<T>) }",
    "enum {A = -1}": "pub enum S { A = -1, B }", "enum {A = 300}": "pub enum S { A = 300, B }", "enum {A()}": "pub enum S { A(), B }", "union": "pub union S { pub a: u8, pub b: u16 }",
}


def items(tier):
    out = []
    fieldless, one = ("enum {A}", "enum {A, B = 5}", "enum {A = -1}", "enum {A = 300}"), ("(u8)", "(private u8)", "{u8}", "{u8, phantom}", "(u8, phantom)", "generic", "lifetime", "(fn)", "(fn with a lifetime)")
    for rn, r in REPRS.items():
        for sn, s in STRUCTS.items():
            if rn == "opaque":
                ok = None if sn == "union" else True
            elif rn == "transparent":
                ok = sn in one
            elif rn == "C":
                ok = None if sn.startswith("(u8") or sn.startswith("(private") or sn.startswith("(fn") else sn in fieldless + ("{u8}", "{u8, u16}", "{u8, phantom}", "generic", "lifetime", "private struct")
            elif rn in ("u8", "i32", "i64"):
                ok = sn in fieldless and not (rn == "u8" and sn in ("enum {A = -1}", "enum {A = 300}"))
            else:
                ok = False
            if ok is None:
                continue
            use = {"generic": "S<u8>", "lifetime": "S<'static>", "generic enum": "S<u8>"}.get(sn, "S")
            f = "fn f" if sn == "private struct" else "pub fn f"
            out.append(Program("%s of repr %s" % (sn, rn), "#[derive_ReprC] %s %s #[ffi_export] %s(x: &%s) {}" % (r, s, f, use), ok, "items"))
            if rn == "opaque":
                out.append(Program("%s of repr %s by value" % (sn, rn), "#[derive_ReprC] %s %s #[ffi_export] %s(x: %s) {}" % (r, s, f, use), False, "items"))
    more = [
        (False, "two generic parameters, one of them not ReprC", "#[derive_ReprC] #[repr(C)] pub struct S<A, B> { pub a: A, pub b: B } #[ffi_export] pub fn f(x: S<u8, Plain>) {}"),
        (True, "two generic parameters", "#[derive_ReprC] #[repr(C)] pub struct S<A, B> { pub a: A, pub b: B } #[ffi_export] pub fn f(x: S<u8, Leaf>) {}"),
        (False, "two generic parameters, one of them opaque", "#[derive_ReprC] #[repr(C)] pub struct S<A, B> { pub a: A, pub b: B } #[ffi_export] pub fn f(x: S<u8, Op>) {}"),
        (True, "a generic struct used through a pointer to an opaque type", "#[derive_ReprC] #[repr(C)] pub struct S<A: 'static> { pub a: &'static A, pub b: u8 } #[ffi_export] pub fn f(x: S<Op>) {}"),
        (True, "bounds and where clauses", "#[derive_ReprC] #[repr(C)] pub struct S<A: Copy> where A: Send { pub a: A, pub b: *const A } #[ffi_export] pub fn f(x: S<u8>) {}"),
        (False, "bounds that are not met", "#[derive_ReprC] #[repr(C)] pub struct S<A: Copy> where A: Send { pub a: A, pub b: *const A } #[ffi_export] pub fn f(x: S<repr_c::String>) {}"),
        (True, "attributes and documentation on fields", "#[derive_ReprC] #[repr(C)] #[derive(Debug)] pub struct S { /** doc */ pub a: u8, #[allow(dead_code)] b: u16 } #[ffi_export] pub fn f(x: S) {}"),
        (True, "an aligned opaque type", "#[derive_ReprC] #[repr(opaque)] #[repr(align(16))] pub struct S { a: u8 } #[ffi_export] pub fn f(x: &S) {}"),
        (True, "an aligned opaque enum", "#[derive_ReprC] #[repr(opaque)] #[repr(align(64))] pub enum S { A(u8), B } #[ffi_export] pub fn f(x: repr_c::Box<S>) {}"),
        (True, "renamed", "#[derive_ReprC(rename = \"other\")] #[repr(C)] pub struct S { pub a: u8 } #[ffi_export] pub fn f(x: S) {}"),
        (False, "renamed to something that is no identifier", "#[derive_ReprC(rename = \"oth er\")] #[repr(C)] pub struct S { pub a: u8 } #[ffi_export] pub fn f(x: S) {}"),
        (False, "an unknown argument", "#[derive_ReprC(bogus)] #[repr(C)] pub struct S { pub a: u8 } #[ffi_export] pub fn f(x: S) {}"),
        (False, "a function", "#[derive_ReprC] pub fn f() {}"),
        (False, "a constant", "#[derive_ReprC] pub const K: u8 = 3;"),
        (False, "a trait without dyn", "#[derive_ReprC] pub trait T1 { fn f(&self) -> u8; } #[ffi_export] pub fn f(x: VirtualPtr<dyn T1>) {}"),
        (False, "no derive at all", "#[repr(C)] pub struct S { pub a: u8 } #[ffi_export] pub fn f(x: S) {}"),
        (False, "no derive at all, by reference", "#[repr(C)] pub struct S { pub a: u8 } #[ffi_export] pub fn f(x: &S) {}"),
        (False, "a struct that contains itself", "#[derive_ReprC] #[repr(C)] pub struct S { pub a: S } #[ffi_export] pub fn f(x: S) {}"),
        (False, "a field that does not outlive the struct's lifetime", "#[derive_ReprC] #[repr(C)] pub struct S<'a> { pub a: &'static u8, pub b: &'a u8 } pub fn f(x: S<'static>, y: u8) -> S<'static> { S { b: &y, ..x } }"),
    ]
    for ok, key, code in more:
        out.append(Program(key, code, ok, "items"))
    for key, code in (("parameter", "#[ffi_export] pub fn f(x: %s) {}"), ("parameter of a callback", "#[ffi_export] pub fn f(x: extern \"C\" fn(%s)) {}"), ("only field", "#[derive_ReprC] #[repr(C)] pub struct S { pub a: %s } #[ffi_export] pub fn f(x: S) {}")):
        for t in ("()", "PhantomData<u8>", "[(); 3]"):
            p = Program("%s as %s" % (t, key), code % t, False, "items")
            p.finding = ZST
            out.append(p)
    return out


# ---------------------------------------------------------------- what ffi_export is put on

def exports(tier):
    t, f = True, False
    table = [
        (t, "fn f() {}"), (t, "pub fn f() {}"), (t, "pub(crate) fn f() {}"), (t, "unsafe fn f() {}"), (t, "extern \"C\" fn f() {}"), (t, "pub unsafe extern \"C\" fn f(x: u8) -> u8 { x }"),
        (t, "fn f(mut x: u8) -> u8 { x += 1; x }"), (t, "fn f(_: u8) {}"), (t, "fn f(_x: u8, _: u16) {}"),
        (t, "fn f<'a>(x: &'a u8) -> &'a u8 { x }"), (t, "fn f<'a, 'b: 'a>(x: &'a u8, y: &'b u8) -> &'a u8 { y }"), (t, "fn f(x: &u8) -> &u8 { x }"), (t, "fn f<'a>(x: &'a u8) -> u8 where 'a: 'a { *x }"), (f, "fn f(x: &u8, y: &u8) -> &u8 { x }"), (f, "fn f<'a, 'b>(x: &'a u8, y: &'b u8) -> &'a u8 { y }"),
        (f, "fn f<T>(x: &T) where T: ReprC {}"), (f, "fn f<T: ReprC>(x: T) {}"), (f, "fn f<const N: usize>(x: [u8; N]) {}"), (f, "fn f(x: impl Copy) {}"), (f, "fn f() -> impl Copy { 0u8 }"), (f, "fn f(x: &dyn Tr) {}"),
        (f, "fn f(self) {}"), (f, "fn f(&self) {}"), (f, "async fn f() {}"), (f, "async fn f() -> u8 { 0 }"),
        (f, "static S: u8 = 0;".replace("static", "mod m {} static")), (f, "trait Tx {}"), (f, "type A = u8;"), (f, "mod m {}"), (f, "impl Plain {}"), (f, "use self::Plain as P;"), (f, "pub union U { a: u8 }"), (f, "extern \"C\" { fn g(); }"), (f, "macro_rules! m { () => () }"),
        (t, "pub const K: u8 = 3;"), (t, "pub const K: f64 = 3.5;"), (t, "pub const K: bool = true;"), (f, "pub const K: Plain = Plain(1);"), (f, "pub const K: Op = loop {};"),
        (f, "pub struct S { pub a: u8 }"), (f, "#[repr(C)] pub struct S { pub a: u8 }"), (f, "pub enum S { A }"), (f, "#[repr(u8)] pub enum S { A }"),
        (t, "#[derive_ReprC] #[repr(C)] pub struct S { pub a: u8 }"), (t, "#[derive_ReprC] #[repr(u8)] pub enum S { A }"), (f, "#[derive_ReprC] #[repr(C)] pub struct S<T> { pub a: T }"), (f, "#[derive_ReprC] #[repr(C)] pub struct S<'a> { pub a: &'a u8 }"),
        (f, "#[derive_ReprC] #[repr(C)] pub struct S where u8: Copy { pub a: u8 }"),
    ]
    out = [Program("#[ffi_export] " + code, "#[ffi_export] " + code, ok, "exports") for ok, code in table]
    args = [
        (t, "", "fn f() {}"), (t, "rename = \"g\"", "fn f() {}"), (f, "rename = \"g h\"", "fn f() {}"), (f, "rename = \"1g\"", "fn f() {}"), (f, "rename = \"\"", "fn f() {}"), (f, "rename = g", "fn f() {}"), (f, "rename", "fn f() {}"), (f, "rename = \"g\", rename = \"h\"", "fn f() {}"),
        (f, "bogus", "fn f() {}"), (f, "executor = ex", "fn f() {}"), (t, "executor = ex", "async fn f() -> u8 { ffi_await!(async { 0 }) }"), (t, "executor = ex", "async fn f(x: u8) -> u8 { let y = x; ffi_await!(async move { y }) }"),
        (f, "executor = ex", "async fn f() -> u8 { 0 }"), (f, "executor = ex", "async fn f() -> u8 { ffi_await!(async { 0 }); 0 }"), (f, "executor = ex", "async fn f() -> Plain { ffi_await!(async { Plain(0) }) }"), (f, "executor = ex", "async fn f() -> Op { ffi_await!(async { loop {} }) }"), (f, "executor = ex", "async fn f(x: Op) -> u8 { ffi_await!(async { 0 }) }"), (f, "executor = ex", "async fn f(x: Plain) -> u8 { ffi_await!(async { 0 }) }"),
        (t, "executor = ex, rename = \"g\"", "async fn f() -> u8 { ffi_await!(async { 0 }) }"), (f, "executor = ex, executor = ex", "async fn f() -> u8 { ffi_await!(async { 0 }) }"),
        (f, "executor = ex", "async fn f(x: &Cell<u8>) -> u8 { ffi_await!(async move { x.get() }) }"),
        (f, "executor = needs_send", "async fn f() -> u8 { let x = Rc::new(3u8); ffi_await!(async move { *x }) }"), (t, "executor = needs_send", "async fn f() -> u8 { let x = Arc::new(3u8); ffi_await!(async move { *x }) }"),
        (f, "executor = needs_static", "async fn f(x: &u8) -> u8 { ffi_await!(async move { *x }) }"), (t, "executor = needs_static", "async fn f(x: &u8) -> u8 { let x = *x; ffi_await!(async move { x }) }"),
        (f, "rename = \"g\"", "#[derive_ReprC] #[repr(C)] pub struct S { pub a: u8 }"), (f, "bogus", "pub const K: u8 = 3;"),
    ]
    ex = "fn ex<R>(f: impl ::std::future::Future<Output = R>) -> R { loop {} } fn needs_send<R>(f: impl Send + ::std::future::Future<Output = R>) -> R { loop {} } fn needs_static<R>(f: impl 'static + ::std::future::Future<Output = R>) -> R { loop {} } "
    for ok, a, code in args:
        out.append(Program("#[ffi_export(%s)] %s" % (a, code), ex + "#[ffi_export(%s)] %s" % (a, code), ok, "exports"))
    return out


# ---------------------------------------------------------------- string literals

ALPHABET = ["a", "\\0", "é", "\\n", "\\\\", "\\\"", "\\u{1F600}"]


def literals(tier):
    """c!("..."): refused iff a NUL is not the last character."""
    out = []
    for n in range(5 if tier == "thorough" else 4):
        for chars in itertools.product(ALPHABET if n < 4 else ALPHABET[:4], repeat=n):
            ok = "\\0" not in chars[:-1]
            code = "::safer_ffi::c!(\"%s\")" % "".join(chars)
            out.append(Program(code, "pub fn f() -> char_p::Ref<'static> { %s }" % code, ok, "literals"))
    for ok, code in [(True, "c!()"), (False, "c!(3)"), (False, "c!(b\"a\")"), (False, "c!(\"a\", \"b\")"), (True, "c!(r\"a\\b\")"), (True, "c!(r#\"a\"b\"#)"), (False, "c!(concat!(\"a\", \"b\"))"), (False, "c!('a')"), (False, "c!(\"a\" \"b\")")]:
        out.append(Program(code, "pub fn f() -> char_p::Ref<'static> { ::safer_ffi::%s }" % code, ok, "literals"))
    return out


# ---------------------------------------------------------------- virtual objects: which pointers become which `VirtualPtr<dyn ...>`

RECEIVERS = {"&self": "&self", "&mut self": "&mut self", "Pin<&mut Self>": "self: Pin<&mut Self>", "Pin<&Self>": "self: Pin<&Self>"}
SETS = [("&self",), ("&mut self",), ("&self", "&mut self"), ("Pin<&mut Self>",), ("Pin<&Self>",), ("&self", "Pin<&mut Self>"), ("&self", "Pin<&Self>"), ("Pin<&Self>", "Pin<&mut Self>"), ()]
POINTERS = ["StdBox<{}>", "&'a {}", "&'a mut {}", "Rc<{}>", "Arc<{}>"]
# name -> (field, Send, Sync)
THREADS = {"u8": (True, True), "Cell<u8>": (True, False), "PhantomData<::std::sync::MutexGuard<'static, u8>>": (False, True), "Rc<u8>": (False, False)}


def coercions(tier):
    """A pointer is taken for `dyn Tt + markers` iff that gives away no access and no thread-safety that it has not got."""
    out = []
    for si, recv in enumerate(SETS):
        pin = any("Pin" in r for r in recv)
        has_mut, has_ref = any("mut" in r for r in recv), any("mut" not in r for r in recv)
        for clone in (False, True):
            methods = " ".join("fn m%d(%s) -> u8;" % (i, RECEIVERS[r]) for i, r in enumerate(recv))
            bodies = " ".join("fn m%d(%s) -> u8 { 0 }" % (i, RECEIVERS[r]) for i, r in enumerate(recv))
            trait = "#[derive_ReprC(dyn%s)] pub trait Tt { %s } " % (", Clone" if clone else "", methods)
            for field, (send, sync) in THREADS.items():
                for is_clone in (True, False):
                    if tier == "quick" and not is_clone and not (clone and field == "u8"):
                        continue
                    ty = "%spub struct T(%s); impl Tt for T { %s } " % ("#[derive(Clone)] " if is_clone else "", field, bodies)
                    for markers in ((), ("Send",), ("Sync",), ("Send", "Sync")):
                        for ptr in POINTERS:
                            for pinned in (False, True):
                                p = ptr.format("T")
                                if pinned and ("Rc" in p or "Arc" in p):
                                    continue
                                want_send, want_sync = "Send" in markers, "Sync" in markers
                                # what soundness demands
                                ok = (not want_send or send) and (not want_sync or sync) and pinned == pin
                                ok = ok and (want_send or not want_sync) and not (has_ref and want_send and not want_sync)
                                if ptr.startswith("StdBox"):
                                    ok = ok and (is_clone or not clone)
                                elif ptr == "&'a mut {}":
                                    ok = ok and not clone
                                else:
                                    ok = ok and not has_mut
                                # what is left out although it would be sound
                                if ptr.startswith("Rc"):
                                    if want_send or want_sync:
                                        ok = False
                                elif ptr.startswith("Arc"):
                                    if not (want_send and want_sync):
                                        if ok:
                                            continue
                                elif ptr == "&'a {}" and want_send != want_sync and ok:
                                    continue
                                mk = "".join(" + " + m for m in markers)
                                q = "Pin<%s>" % p if pinned else p
                                out.append(Program("%s: %s to dyn%s; trait {%s}%s; T%s holds %s" % (si, q, mk, ", ".join(recv), ", Clone" if clone else "", ": Clone" if is_clone else "", field),
                                                   trait + ty + "pub fn f<'a>(x: %s) -> VirtualPtr<dyn 'a%s + Tt> { x.into() }" % (q, mk), ok, "coercions"))
    return out


def traits(tier):
    """derive_ReprC(dyn): which traits?"""
    t, f = True, False
    table = [
        (t, "pub trait T1 { fn m(&self); }"), (t, "pub trait T1 { fn m(&mut self, x: u8) -> u16; }"), (t, "trait T1 { fn m(&self); }"), (t, "pub trait T1 {}"), (t, "pub trait T1 { fn a(&self); fn b(&self); fn c(&mut self); }"),
        (f, "pub trait T1 { fn m(self); }"), (f, "pub trait T1 { fn m(); }"), (f, "pub trait T1 { fn m(x: u8); }"), (f, "pub trait T1 { fn m<T>(&self, x: T); }"), (f, "pub trait T1 { fn m(&self, x: impl Copy); }"), (f, "pub trait T1 { async fn m(&self); }"),
        (f, "pub trait T1 { const K: u8; fn m(&self); }"), (f, "pub trait T1 { type A; fn m(&self) -> u8; }"), (f, "pub trait T1 { fn m(&self) -> Self; }"), (f, "pub trait T1 { fn m(&self, x: &Self); }"), (f, "pub trait T1 { fn m(&self) -> StdBox<Self>; }"),
        (t, "pub trait T1 { fn m(self: &Self); }"), (t, "pub trait T1 { fn m(self: &mut Self); }"), (f, "pub trait T1 { fn m(self: StdBox<Self>); }"), (f, "pub trait T1 { fn m(self: Rc<Self>); }"), (f, "pub trait T1 { fn m(self: Arc<Self>); }"), (f, "pub trait T1 { fn m(self: ::std::boxed::Box<Self>); }"), (f, "pub trait T1 { fn m(self: Pin<StdBox<Self>>); }"),
        (t, "pub trait T1 { fn m(self: Pin<&mut Self>); }"), (t, "pub trait T1 { fn m(self: Pin<&Self>); }"), (f, "pub trait T1 { fn m(self: Pin<&mut Self>); fn n(&mut self); }"), (t, "pub trait T1 { fn m(self: Pin<&mut Self>); fn n(&self); }"),
        (t, "pub trait T1 { fn m(&self, x: &u8) -> u8; }"), (t, "pub trait T1 { fn m<'a>(&'a self, x: &'a u8) -> &'a u8; }"), (t, "pub trait T1 { fn m<'a>(&self, x: &'a u8) -> &'a u8; }"), (t, "pub trait T1 { fn m(&self) -> &u8; }"),
        (f, "pub trait T1 { fn m(&self, x: Plain); }"), (f, "pub trait T1 { fn m(&self) -> Plain; }"), (f, "pub trait T1 { fn m(&self) -> Op; }"), (f, "pub trait T1 { fn m(&self, x: Op); }"), (t, "pub trait T1 { fn m(&self, x: &Op); }"), (f, "pub trait T1 { fn m(&self, x: &Plain); }"), (f, "pub trait T1 { fn m(&self, x: Option<u8>); }"), (f, "pub trait T1 { fn m(&self) -> StdString; }"), (f, "pub trait T1 { fn m(&self) -> (u8, u8); }"), (f, "pub trait T1 { fn m(&self, x: fn()); }"), (f, "pub trait T1 { fn m(&self, x: StdBox<dyn Fn()>); }"),
        (t, "pub trait T1 { fn m(&self) -> repr_c::Vec<u8>; }"), (t, "pub trait T1 { fn m(&self, x: BoxDynFnMut0<()>); }"), (t, "pub trait T1 { fn m(&self, x: VirtualPtr<dyn Tr>); }"), (t, "pub trait T1 { fn m(&self, _: u8); }"), (t, "pub trait T1 { fn m(&self, x: extern \"C\" fn(u8)); }"),
        (f, "pub unsafe trait T1 { fn m(&self, ...); }"),
    ]
    out = []
    for ok, code in table:
        m = "#[derive_ReprC(dyn)] %s #[ffi_export] fn d(x: VirtualPtr<dyn T1>) {}" % code
        if "&self, x: Op" in code or "-> Op" in code or "-> StdString" in code:
            pass
        out.append(Program("#[derive_ReprC(dyn)] " + code, m, ok, "traits"))
    use = "#[derive_ReprC(dyn)] pub trait T1 { fn m(&self) -> u8; } #[derive_ReprC(dyn, Clone)] pub trait T2 { fn m(&mut self) -> u8; } #[derive_ReprC(dyn)] pub trait T3 { fn m(&mut self, x: &u8) -> u8; } "
    more = [
        (t, "call", "pub fn f(x: &VirtualPtr<dyn T1>) -> u8 { x.m() }"), (f, "call of a method with &mut self through &", "pub fn f(x: &VirtualPtr<dyn T2>) -> u8 { x.m() }"), (t, "call of a method with &mut self", "pub fn f(x: &mut VirtualPtr<dyn T2>) -> u8 { x.m() }"),
        (f, "clone without Clone", "pub fn f(x: &VirtualPtr<dyn T1>) -> VirtualPtr<dyn T1> { x.clone() }"), (t, "clone", "pub fn f(x: &VirtualPtr<dyn T2>) -> VirtualPtr<dyn T2> { x.clone() }"),
        (f, "a trait that is not derived", "pub trait T4 { fn m(&self); } pub fn f(x: VirtualPtr<dyn T4>) {}"), (f, "two traits", "pub fn f(x: VirtualPtr<dyn T1 + T2>) {}"), (f, "markers for free", "pub fn f(x: VirtualPtr<dyn T1>) -> VirtualPtr<dyn Send + Sync + T1> { x.into() }"),
        (f, "another trait", "pub fn f(x: VirtualPtr<dyn T1>) -> VirtualPtr<dyn T3> { x }"), (f, "a pointer to something else", "pub fn f(x: StdBox<Plain>) -> VirtualPtr<dyn T1> { x.into() }"), (f, "copy", "pub fn f(x: VirtualPtr<dyn T1>) { drop(x); drop(x); }"),
        (f, "building one from fields", "pub fn f(x: VirtualPtr<dyn T1>) { let VirtualPtr(_) = x; }"), (f, "safe from_raw_parts", "pub fn f(x: ::safer_ffi::ptr::NonNullOwned<::safer_ffi::dyn_traits::ErasedTy>, v: T1VTable<'static>) -> VirtualPtr<dyn T1> { VirtualPtr::from_raw_parts(x, v) }"),
    ]
    for ok, key, code in more:
        out.append(Program("virtual objects: " + key, use + code, ok, "traits"))
    return out


# ---------------------------------------------------------------- thread-safety of the library's types

MARKED = r'''
#[derive_ReprC] #[repr(opaque)] pub struct Both(pub u8);
#[derive_ReprC] #[repr(opaque)] pub struct SendOnly(pub Cell<u8>);
#[derive_ReprC] #[repr(opaque)] pub struct SyncOnly(pub PhantomData<::std::sync::MutexGuard<'static, u8>>);
#[derive_ReprC] #[repr(opaque)] pub struct Neither(pub Rc<u8>);
'''
INNER = {"Both": (True, True), "SendOnly": (True, False), "SyncOnly": (False, True), "Neither": (False, False)}
# Rust -> (Send, Sync) given those of T: what the std type that it stands for has
HOLDERS = {
    "repr_c::Box<{}>": lambda s, y: (s, y), "repr_c::Vec<{}>": lambda s, y: (s, y), "c_slice::Box<{}>": lambda s, y: (s, y), "c_slice::Mut<'static, {}>": lambda s, y: (s, y), "c_slice::Ref<'static, {}>": lambda s, y: (y, y),
    "Out<'static, {}>": lambda s, y: (s, y), "Gen<&'static {}>": lambda s, y: (y, y), "New<&'static mut {}>": lambda s, y: (s, y), "Option<repr_c::Box<{}>>": lambda s, y: (s, y), "Option<c_slice::Ref<'static, {}>>": lambda s, y: (y, y), "[repr_c::Box<{}>; 2]": lambda s, y: (s, y),
    "Tuple2<u8, repr_c::Box<{}>>": lambda s, y: (s, y), "TaggedOption<repr_c::Box<{}>>": lambda s, y: (s, y), "repr_c::Box<repr_c::Vec<{}>>": lambda s, y: (s, y), "*const {}": lambda s, y: (False, False), "*mut {}": lambda s, y: (False, False),
    "repr_c::Vec<*const {}>": lambda s, y: (False, False), "c_slice::Raw<{}>": lambda s, y: (False, False),
}
FIXED = {
    "repr_c::String": (True, True), "str::Box": (True, True), "str::Ref<'static>": (True, True), "char_p::Box": (True, True), "char_p::Ref<'static>": (True, True), "Bytes<'static>": (True, True), "Leaf": (True, True), "extern \"C\" fn(u8)": (True, True),
    "ArcDynFn0<()>": (True, True), "ArcDynFn1<u8, *const u8>": (True, True), "VirtualPtr<dyn Tr>": (False, False), "VirtualPtr<dyn Send + Sync + Tr>": (True, True), "VirtualPtr<dyn Send + Mu>": (True, False), "VirtualPtr<dyn Mu>": (False, False),
    "Option<VirtualPtr<dyn Tr>>": (False, False), "repr_c::Vec<VirtualPtr<dyn Tr>>": (False, False), "repr_c::Box<VirtualPtr<dyn Send + Sync + Tr>>": (True, True),
}
# a type that is Send without being Sync: the other way is unspecified
SEND_NOT_SYNC = {"BoxDynFnMut0<()>": (True, None), "BoxDynFnMut1<u8, u16>": (True, None), "RefDynFnMut0<'static, ()>": (True, None)}


def threads(tier):
    out = []
    need = "#[derive_ReprC(dyn)] pub trait Mu { fn m(&mut self); } pub fn is_send<T: Send>() {} pub fn is_sync<T: Sync>() {} "

    def add(ty, send, sync):
        for want, what in ((send, "send"), (sync, "sync")):
            if want is not None:
                out.append(Program("%s is %s" % (ty, what), (MARKED if any(i in ty for i in INNER) else "") + need + "pub fn f() { is_%s::<%s>() }" % (what, ty), want, "threads"))
    for h, f in HOLDERS.items():
        for i, (send, sync) in INNER.items():
            add(h.format(i), *f(send, sync))
    for ty, (send, sync) in list(FIXED.items()) + list(SEND_NOT_SYNC.items()):
        add(ty, send, sync)

    # closures: made of which environments?
    env = {"u8": (True, True), "Cell<u8>": (True, False), "Rc<u8>": (False, False), "PhantomData<::std::sync::MutexGuard<'static, u8>>": (False, True)}
    make = {
        "BoxDynFnMut0::new(StdBox)": ("pub fn f(e: {0}) -> BoxDynFnMut0<()> {{ BoxDynFnMut0::new(StdBox::new(move || {{ let _ = &e; }})) }}", lambda s, y: s),
        "BoxDynFnMut0 from StdBox": ("pub fn f(e: {0}) -> BoxDynFnMut0<()> {{ StdBox::new(move || {{ let _ = &e; }}).into() }}", lambda s, y: s),
        "repr_c::Box<dyn Send + FnMut>": ("pub fn f(e: {0}) -> repr_c::Box<dyn Send + FnMut()> {{ StdBox::new(move || {{ let _ = &e; }}).into() }}", lambda s, y: s),
        "ArcDynFn0::new(Arc)": ("pub fn f(e: {0}) -> ArcDynFn0<()> {{ ArcDynFn0::new(Arc::new(move || {{ let _ = &e; }})) }}", lambda s, y: s and y),
        "ArcDynFn0 from Arc": ("pub fn f(e: {0}) -> ArcDynFn0<()> {{ Arc::new(move || {{ let _ = &e; }}).into() }}", lambda s, y: s and y),
        "ArcDynFn1::new(Arc)": ("pub fn f(e: {0}) -> ArcDynFn1<u8, u8> {{ ArcDynFn1::new(Arc::new(move |x: u8| {{ let _ = &e; x }})) }}", lambda s, y: s and y),
        "ArcDynFn0 from Rc": ("pub fn f(e: {0}) -> ArcDynFn0<()> {{ Rc::new(move || {{ let _ = &e; }}).into() }}", lambda s, y: False),
        "ArcDynFn0 from StdBox": ("pub fn f(e: {0}) -> ArcDynFn0<()> {{ StdBox::new(move || {{ let _ = &e; }}).into() }}", lambda s, y: False),
        "ArcDynFn0 of FnMut": ("pub fn f(e: {0}) -> ArcDynFn0<()> {{ let mut n = 0; ArcDynFn0::new(Arc::new(move || {{ let _ = &e; n += 1; }})) }}", lambda s, y: False),
        "BoxDynFnMut0 of FnMut": ("pub fn f(e: {0}) -> BoxDynFnMut0<()> {{ let mut n = 0; BoxDynFnMut0::new(StdBox::new(move || {{ let _ = &e; n += 1; }})) }}", lambda s, y: s),
        "BoxDynFnMut0 of FnOnce": ("pub fn f(e: {0}, t: StdString) -> BoxDynFnMut0<()> {{ BoxDynFnMut0::new(StdBox::new(move || {{ let e = e; drop(t); drop(e); }})) }}", lambda s, y: False),
        "RefDynFnMut0::new(&mut)": ("pub fn g(r: RefDynFnMut0<'_, ()>) {{}} pub fn f(e: {0}) {{ g(RefDynFnMut0::new(&mut move || {{ let _ = &e; }})) }}", lambda s, y: s),
        "RefDynFnMut0 from &mut": ("pub fn g(r: RefDynFnMut0<'_, ()>) {{}} pub fn f(e: {0}) {{ g((&mut move || {{ let _ = &e; }}).into()) }}", lambda s, y: s),
        "BoxDynFnMut0 of a borrowed environment": ("pub fn f(e: &{0}) -> BoxDynFnMut0<()> {{ BoxDynFnMut0::new(StdBox::new(move || {{ let _ = &*e; }})) }}", lambda s, y: False),
        "ArcDynFn0 of a borrowed environment": ("pub fn f(e: &{0}) -> ArcDynFn0<()> {{ ArcDynFn0::new(Arc::new(move || {{ let _ = &*e; }})) }}", lambda s, y: False),
        "BoxDynFnMut0 of a static reference": ("pub fn f(e: &'static {0}) -> BoxDynFnMut0<()> {{ BoxDynFnMut0::new(StdBox::new(move || {{ let _ = &*e; }})) }}", lambda s, y: y),
        "BoxDynFnMut1 called with the wrong type": ("pub fn f(e: {0}, mut g: BoxDynFnMut1<(), u8>) {{ g.call(300u16) }}", lambda s, y: False),
        "BoxDynFnMut1 called through &": ("pub fn f(e: {0}, g: &BoxDynFnMut1<(), u8>) {{ g.call(3u8) }}", lambda s, y: False),
        "BoxDynFnMut1 called": ("pub fn f(e: {0}, g: &mut BoxDynFnMut1<(), u8>) {{ g.call(3u8) }}", lambda s, y: True),
        "ArcDynFn1 called through &": ("pub fn f(e: {0}, g: &ArcDynFn1<u8, u8>) -> u8 {{ g.call(3u8) }}", lambda s, y: True),
        "ArcDynFn1 cloned": ("pub fn f(e: {0}, g: &ArcDynFn1<u8, u8>) -> ArcDynFn1<u8, u8> {{ g.clone() }}", lambda s, y: True),
        "BoxDynFnMut1 cloned": ("pub fn f(e: {0}, g: &BoxDynFnMut1<u8, u8>) -> BoxDynFnMut1<u8, u8> {{ g.clone() }}", lambda s, y: False),
        "BoxDynFnMut1 of a closure with the wrong argument": ("pub fn f(e: {0}) -> BoxDynFnMut1<(), u8> {{ BoxDynFnMut1::new(StdBox::new(move |x: u16| {{}})) }}", lambda s, y: False),
        "BoxDynFnMut1 of a closure with the wrong result": ("pub fn f(e: {0}) -> BoxDynFnMut1<u8, u8> {{ BoxDynFnMut1::new(StdBox::new(move |x: u8| x as u16)) }}", lambda s, y: False),
        "BoxDynFnMut0 built from its fields": ("pub fn f(e: {0}, p: ::safer_ffi::ptr::NonNull<::std::os::raw::c_void>) -> BoxDynFnMut0<()> {{ BoxDynFnMut0 {{ env_ptr: p, call: loop {{}}, free: loop {{}} }} }}", lambda s, y: False),
        "Bytes from an Arc<dyn AsRef + Send + Sync>": ("struct A({0}); impl AsRef<[u8]> for A {{ fn as_ref(&self) -> &[u8] {{ &[] }} }} pub fn f(e: {0}) -> Bytes<'static> {{ let a: Arc<dyn AsRef<[u8]> + Send + Sync> = Arc::new(A(e)); a.into() }}", lambda s, y: False),
        "Bytes from an Arc<T: AsRef>": ("struct A({0}); impl AsRef<[u8]> for A {{ fn as_ref(&self) -> &[u8] {{ &[] }} }} pub fn f(e: {0}) -> Bytes<'static> {{ Bytes::from(Arc::new(A(e))) }}", lambda s, y: s and y),
    }
    for name, (code, ok) in make.items():
        for e, (send, sync) in env.items():
            out.append(Program("%s over %s" % (name, e), code.format(e), ok(send, sync), "threads"))
    for n in (0, 1, 2, 9):
        a = ", ".join("u8" for _ in range(n))
        x = ", ".join("_: u8" for _ in range(n))
        for e, (send, sync) in env.items():
            g = "u16" + (", " + a if n else "")
            out.append(Program("BoxDynFnMut%d of %s" % (n, e), "pub fn f(e: %s) -> BoxDynFnMut%d<%s> { BoxDynFnMut%d::new(StdBox::new(move |%s| { let _ = &e; 3u16 })) }" % (e, n, g, n, x), send, "threads"))
            out.append(Program("ArcDynFn%d of %s" % (n, e), "pub fn f(e: %s) -> ArcDynFn%d<%s> { ArcDynFn%d::new(Arc::new(move |%s| { let _ = &e; 3u16 })) }" % (e, n, g, n, x), send and sync, "threads"))
            out.append(Program("RefDynFnMut%d of %s" % (n, e), "pub fn g(r: RefDynFnMut%d<'_, %s>) {} pub fn f(e: %s) { g(RefDynFnMut%d::new(&mut move |%s| { let _ = &e; 3u16 })) }" % (n, g, e, n, x), send, "threads"))
    return out


# ---------------------------------------------------------------- lifetimes

# what is made of a borrow: (type with lifetime 'a of T, expression making it of `x`, declaration of the owned x, mutable?, is T generic?, the element)
BORROWS = [
    ("c_slice::Ref<'a, u8>", "c_slice::Ref::from(&x[..])", "let mut x: StdVec<u8> = some();", "&'a [u8]", "c_slice::Ref::from(x)", False),
    ("c_slice::Mut<'a, u8>", "c_slice::Mut::from(&mut x[..])", "let mut x: StdVec<u8> = some();", "&'a mut [u8]", "c_slice::Mut::from(x)", True),
    ("str::Ref<'a>", "str::Ref::from(&x[..])", "let mut x: StdString = some();", "&'a ::core::primitive::str", "str::Ref::from(x)", False),
    ("char_p::Ref<'a>", "x.as_ref()", "let mut x: char_p::Box = some();", "&'a char_p::Box", "x.as_ref()", False),
    ("c_slice::Ref<'a, u8>", "x.as_ref()", "let mut x: c_slice::Box<u8> = some();", "&'a c_slice::Box<u8>", "x.as_ref()", False),
    ("c_slice::Ref<'a, u8>", "x.as_ref()", "let mut x: repr_c::Vec<u8> = some();", "&'a repr_c::Vec<u8>", "x.as_ref()", False),
    ("Bytes<'a>", "Bytes::from_slice(&x[..])", "let mut x: StdVec<u8> = some();", "&'a [u8]", "Bytes::from_slice(x)", False),
    ("Bytes<'a>", "Bytes::from_slice(&x[..])", "let mut x: [u8; 3] = some();", "&'a [u8]", "Bytes::from_slice(x)", False),
    ("RefDynFnMut0<'a, ()>", "RefDynFnMut0::new(&mut x)", "let mut x = || {};", "&'a mut fn()", "RefDynFnMut0::new(x)", True),
    ("VirtualPtr<dyn 'a + Tr>", "VirtualPtr::<dyn Tr>::from(&x)", "let mut x = 0u8;", "&'a u8", "VirtualPtr::<dyn 'a + Tr>::from(x)", False),
    ("VirtualPtr<dyn 'a + Tr>", "VirtualPtr::<dyn Tr>::from(&mut x)", "let mut x = 0u8;", "&'a mut u8", "VirtualPtr::<dyn 'a + Tr>::from(x)", True),
    ("VirtualPtr<dyn 'a + Tr>", "VirtualPtr::<dyn Tr>::from(StdBox::new(&x))", "let mut x = 0u8;", "&'a u8", "VirtualPtr::<dyn 'a + Tr>::from(StdBox::new(x))", False),
    ("VirtualPtr<dyn 'a + Tr>", "VirtualPtr::<dyn Tr>::from(Rc::new(&x))", "let mut x = 0u8;", "&'a u8", "VirtualPtr::<dyn 'a + Tr>::from(Rc::new(x))", False),
    ("repr_c::Box<&'a u8>", "StdBox::new(&x).into()", "let mut x = 0u8;", "&'a u8", "StdBox::new(x).into()", False),
    ("repr_c::Vec<&'a u8>", "repr_c::Vec::from(StdVec::from([&x]))", "let mut x = 0u8;", "&'a u8", "repr_c::Vec::from(StdVec::from([x]))", False),
    ("Out<'a, u8>", "(&mut x).as_out()", "let mut x = 0u8;", "&'a mut u8", "x.as_out()", True),
    ("TaggedOption<&'a u8>", "TaggedOption::Some(&x)", "let mut x = 0u8;", "&'a u8", "TaggedOption::Some(x)", False),
    ("Option<char_p::Ref<'a>>", "Some(x.as_ref())", "let mut x: char_p::Box = some();", "&'a char_p::Box", "Some(x.as_ref())", False),
]


def lifetimes(tier):
    out = []
    for i, (ty, make, owner, arg, from_arg, mut) in enumerate(BORROWS):
        st = ty.replace("'a", "'static")
        base = "%s from %s" % (ty, from_arg)

        def add(key, ok, code):
            out.append(Program("%d %s: %s" % (i, base, key), code, ok, "lifetimes"))
        add("kept for as long as the borrow", True, "pub fn f<'a>(x: %s) -> %s { %s }" % (arg, ty, from_arg))
        add("used while the owner lives", True, "pub fn f() { %s let b: %s = %s; use_(b); use_(x); }" % (owner, ty.replace("'a", "'_"), make))
        add("kept for longer", False, "pub fn f<'a, 'b>(x: %s) -> %s { %s }" % (arg.replace("'a", "'b"), ty, from_arg))
        add("kept forever", False, "pub fn f<'a>(x: %s) -> %s { %s }" % (arg, st, from_arg))
        if "RefDyn" not in ty:
            add("returned although its owner is gone", False, "pub fn f() -> %s { %s %s }" % (st, owner, make))
        add("used after its owner is moved", False if "let mut x = 0u8" not in owner and "[u8; 3]" not in owner and "||" not in owner else None, "pub fn f() { %s let b: %s = %s; use_(x); use_(b); }" % (owner, ty.replace("'a", "'_"), make))
        add("used after its owner is overwritten", False if "||" not in owner else None, "pub fn f() { %s let b: %s = %s; x = some(); use_(b); }" % (owner, ty.replace("'a", "'_"), make))
        add("used after its owner is gone", False, "pub fn f() { let b: %s; { %s b = %s; } use_(b); }" % (ty.replace("'a", "'_"), owner, make))
        add("two at a time", not mut, "pub fn f() { %s let b: %s = %s; let c: %s = %s; use_(b); use_(c); }" % (owner, ty.replace("'a", "'_"), make, ty.replace("'a", "'_"), make))
        add("sent to a thread that may outlive its owner", False, "pub fn f() { %s let b: %s = %s; ::std::thread::spawn(move || use_(b)); }" % (owner, ty.replace("'a", "'_"), make))
        add("shortened", None if "VirtualPtr" in ty else True, "pub fn f<'a: 'b, 'b>(x: %s) -> %s { x }" % (ty, ty.replace("'a", "'b")))
        add("lengthened", False, "pub fn f<'a: 'b, 'b>(x: %s) -> %s { x }" % (ty.replace("'a", "'b"), ty))
        add("lengthened to 'static", False, "pub fn f<'a>(x: %s) -> %s { x }" % (ty, st))
    out = [p for p in out if p.expect is not None]
    # variance in the type of what is borrowed or owned
    for h, covariant in [("c_slice::Ref<'static, {}>", True), ("c_slice::Mut<'static, {}>", False), ("Out<'static, {}>", False), ("&'static mut Gen<{}>", False), ("repr_c::Box<{}>", True), ("repr_c::Vec<{}>", None), ("c_slice::Box<{}>", None), ("TaggedOption<{}>", True), ("Gen<{}>", True), ("Tuple2<u8, {}>", True),
                         ("BoxDynFnMut0<{}>", None), ("ArcDynFn1<u8, {}>", None), ("RefDynFnMut1<'static, (), {}>", None), ("Out<'static, repr_c::Vec<{}>>", False)]:
        long, short = h.format("&'static u8"), h.format("&'b u8")
        if covariant is not None:
            out.append(Program("%s: what it holds shortened" % h, "pub fn f<'b>(x: %s, _: &'b u8) -> %s { x }" % (long, short.replace("'static,", "'b,").replace("&'static mut", "&'b mut")), covariant, "lifetimes"))
        out.append(Program("%s: what it holds lengthened" % h, "pub fn f<'b>(x: %s) -> %s { x }" % (short.replace("'static,", "'b,").replace("&'static mut", "&'b mut"), long.replace("'static,", "'b,").replace("&'static mut", "&'b mut")), False if "ArcDynFn1" not in h and "RefDynFnMut1" not in h else None, "lifetimes"))
    more = [
        (False, "Bytes from a borrowed slice as if it were static", "pub fn f<'b>(x: &'b [u8]) -> Bytes<'b> { Bytes::from(x) }"), (False, "Bytes::from_static of a borrowed slice", "pub fn f<'b>(x: &'b [u8]) -> Bytes<'b> { Bytes::from_static(x) }"), (True, "Bytes::copied_from_slice of a borrowed slice", "pub fn f<'b>(x: &'b [u8]) -> Bytes<'static> { Bytes::copied_from_slice(x) }"), (True, "Bytes::inline_slice of a borrowed slice", "pub fn f<'b>(x: &'b [u8]) -> Option<Bytes<'static>> { Bytes::inline_slice(x) }"),
        (False, "Bytes from an Arc of something borrowed", "pub fn f<'b>(x: Arc<&'b [u8]>) -> Bytes<'b> { Bytes::from(x) }"), (False, "Bytes of a borrowed slice split and kept for longer", "pub fn f<'b>(x: Bytes<'b>) -> Bytes<'static> { x.split_at(1).ok().unwrap().0 }"), (False, "Bytes cloned without allocation and kept for longer", "pub fn f<'b>(x: Bytes<'b>) -> Bytes<'static> { x.noalloc_clone().unwrap() }"), (True, "Bytes upgraded without allocation", "pub fn f<'b>(x: Bytes<'b>) -> Result<Bytes<'static>, Bytes<'b>> { x.noalloc_upgrade() }"),
        (False, "a callback's borrowed argument kept: ArcDynFn1", "pub fn f<'b>(keep: &'b ::std::sync::Mutex<Option<&'static u8>>, c: &ArcDynFn1<(), &'static u8>, x: u8) { c.call(&x) }"),
        (False, "a slice's items moved out", "pub fn f(x: c_slice::Ref<'_, repr_c::Vec<u8>>) -> repr_c::Vec<u8> { x[0] }"),
        (False, "a slice ref written through", "pub fn f(x: c_slice::Ref<'_, u8>) { x[0] = 3; }"), (True, "a slice mut written through", "pub fn f(mut x: c_slice::Mut<'_, u8>) { x[0] = 3; }"), (False, "a slice mut copied", "pub fn f(x: c_slice::Mut<'_, u8>) { use_(x); use_(x); }"), (True, "a slice ref copied", "pub fn f(x: c_slice::Ref<'_, u8>) { use_(x); use_(x); }"),
        (False, "a box moved twice", "pub fn f(x: repr_c::Box<u8>) { use_(x); use_(x); }"), (False, "a vec moved twice", "pub fn f(x: repr_c::Vec<u8>) { use_(x); use_(x); }"), (False, "a string moved twice", "pub fn f(x: repr_c::String) { use_(x); use_(x); }"), (False, "a char_p moved twice", "pub fn f(x: char_p::Box) { use_(x); use_(x); }"), (False, "bytes moved twice", "pub fn f(x: Bytes<'_>) { use_(x); use_(x); }"),
        (False, "an Arc closure moved twice", "pub fn f(x: ArcDynFn0<()>) { use_(x); use_(x); }"), (False, "a boxed closure moved twice", "pub fn f(x: BoxDynFnMut0<()>) { use_(x); use_(x); }"), (False, "a borrowed closure moved twice", "pub fn f(x: RefDynFnMut0<'_, ()>) { use_(x); use_(x); }"), (False, "an out reference moved twice", "pub fn f(x: Out<'_, u8>) { use_(x); use_(x); }"),
        (False, "an out reference read", "pub fn f(x: Out<'_, u8>) -> u8 { *x }"), (False, "a box cloned although its content cannot be", "pub fn f(x: repr_c::Box<Op>) -> repr_c::Box<Op> { x.clone() }"), (False, "a vec of uncloneable items cloned", "pub fn f(x: repr_c::Vec<Op>) -> repr_c::Vec<Op> { x.clone() }"),
        (False, "a string ref written through", "pub fn f(x: str::Ref<'_>) { x.make_ascii_uppercase(); }"), (False, "a slice of a borrowed Bytes kept", "pub fn f(x: &Bytes<'static>) -> &'static [u8] { x }"), (True, "a slice of a borrowed Bytes", "pub fn f<'b>(x: &'b Bytes<'static>) -> &'b [u8] { x }"), (True, "a clone of a borrowed Bytes kept", "pub fn f(x: &Bytes<'static>) -> Bytes<'static> { x.clone() }"),
        (False, "a clone of Bytes kept for longer", "pub fn f<'b>(x: &Bytes<'b>) -> Bytes<'static> { x.clone() }"), (True, "an upgraded Bytes kept for longer", "pub fn f<'b>(x: Bytes<'b>) -> Bytes<'static> { x.upgrade() }"), (False, "a slice of Bytes kept for longer", "pub fn f<'b>(x: Bytes<'b>) -> Bytes<'static> { x.subsliced(0..1) }"),
        (False, "the contents of a box kept", "pub fn f(x: &repr_c::Box<u8>) -> &'static u8 { x }"), (False, "the contents of a vec kept", "pub fn f(x: repr_c::Vec<u8>) -> &'static [u8] { let y: &[u8] = &x; y }"), (False, "the contents of a slice ref kept", "pub fn f<'b>(x: c_slice::Ref<'b, u8>) -> &'static [u8] { x.as_slice() }"), (True, "the contents of a slice ref", "pub fn f<'b>(x: c_slice::Ref<'b, u8>) -> &'b [u8] { x.as_slice() }"),
        (False, "the contents of a slice mut through &", "pub fn f<'b, 'c>(x: &'c c_slice::Mut<'b, u8>) -> &'b [u8] { x }"), (False, "a reborrowed slice mut kept", "pub fn f<'b, 'c>(x: &'c mut c_slice::Mut<'b, u8>) -> &'b mut [u8] { x }"), (True, "a slice mut given away", "pub fn f<'b>(x: c_slice::Mut<'b, u8>) -> &'b mut [u8] { x.as_slice() }"),
        (True, "the text of a char_p ref", "pub fn f<'b>(x: char_p::Ref<'b>) -> &'b ::core::primitive::str { x.to_str() }"), (False, "the text of a char_p ref kept", "pub fn f<'b>(x: char_p::Ref<'b>) -> &'static ::core::primitive::str { x.to_str() }"), (False, "the text of a char_p box kept", "pub fn f<'b>(x: char_p::Box) -> &'static ::core::primitive::str { x.to_str() }"), (False, "a char_p ref of a box that is gone", "pub fn f<'b>() -> char_p::Ref<'b> { let x: char_p::Box = some(); x.as_ref() }"),
        (False, "an exported function returning what it owns by reference", "#[ffi_export] pub fn f(x: repr_c::Box<u8>) -> &'static u8 { &*x }"), (False, "an exported function returning a reference with no source", "#[ffi_export] pub fn f() -> &u8 { loop {} }"), (True, "an exported function returning part of an argument", "#[ffi_export] pub fn f<'b>(x: &'b Leaf) -> &'b u8 { &x.x }"),
        (False, "an exported function returning the wrong lifetime", "#[ffi_export] pub fn f<'b, 'c>(x: &'b Leaf, y: &'c Leaf) -> &'c u8 { &x.x }"), (False, "an exported function writing through &", "#[ffi_export] pub fn f(x: &Leaf) { x.x = 3; }"),
        (False, "a virtual object's borrowed result kept", "#[derive_ReprC(dyn)] pub trait G { fn g(&self) -> &u8; } pub fn f(x: VirtualPtr<dyn G>) -> &'static u8 { x.g() }"), (False, "a virtual object's borrowed result used after it is gone", "#[derive_ReprC(dyn)] pub trait G { fn g(&self) -> &u8; } pub fn f(x: VirtualPtr<dyn G>) { let b = x.g(); drop(x); use_(b); }"),
        (True, "a virtual object's borrowed result", "#[derive_ReprC(dyn)] pub trait G { fn g(&self) -> &u8; } pub fn f(x: &VirtualPtr<dyn G>) -> u8 { *x.g() }"),
        (False, "a virtual object lengthened through a vec", "pub fn f<'b>(x: repr_c::Vec<VirtualPtr<dyn 'b + Tr>>) -> repr_c::Vec<VirtualPtr<dyn 'static + Tr>> { x }"), (False, "a generic virtual object's parameter shortened", "#[derive_ReprC(dyn)] pub trait P<T> { fn p(&self, x: T); } pub fn f<'b>(x: VirtualPtr<dyn P<&'b u8>>) -> VirtualPtr<dyn P<&'static u8>> { x }"),
    ]
    out = [p for p in out if p.expect is not None]
    for ok, key, code in more:
        out.append(Program(key, code, ok, "lifetimes"))
    return out


# ---------------------------------------------------------------- futures and executors

def futures(tier):
    head = "use ::safer_ffi::dyn_traits::futures::*; use ::std::future::Future; "
    out = []

    def add(ok, key, code):
        out.append(Program("futures: " + key, head + code, ok, "futures"))
    env = {"u8": (True, True), "Cell<u8>": (True, False), "Rc<u8>": (False, False), "PhantomData<::std::sync::MutexGuard<'static, u8>>": (False, True)}
    for e, (send, sync) in env.items():
        for dyn, need in (("dyn 'a + FfiFuture", False), ("dyn 'a + Send + FfiFuture", True)):
            for ptr in ("Pin<StdBox<T>>", "Pin<&'a mut T>", "StdBox<T>", "&'a mut T", "Pin<&'a T>", "Pin<Rc<T>>"):
                add((send or not need) and ptr in ("Pin<StdBox<T>>", "Pin<&'a mut T>"), "%s over %s to %s" % (ptr, e, dyn),
                    "pub struct T(%s); impl Future for T { type Output = (); fn poll(self: Pin<&mut Self>, c: &mut ::std::task::Context<'_>) -> ::std::task::Poll<()> { loop {} } } pub fn f<'a>(x: %s) -> VirtualPtr<%s> { x.into() }" % (e, ptr, dyn))
        for x, thread_safe in (("dyn FfiFutureExecutor", False), ("dyn FfiFutureExecutor + Send + Sync", True)):
            for call, ok in (("spawn(async move { let e = e; ::std::future::ready(()).await; drop(e); 3u8 })", send), ("spawn(async move { 3u8 })", True), ("spawn_blocking(move || { drop(e); 3u8 })", send), ("spawn_blocking(move || e)", send), ("block_on(async move { let e = e; ::std::future::ready(()).await; drop(e); 3u8 })", True), ("block_on(async { e })", True)):
                add(ok, "%s %s with %s" % (x, call, e), "pub fn f(x: &VirtualPtr<%s>, e: %s) { let _ = x.%s; }" % (x, e, call))
    for x in ("dyn FfiFutureExecutor", "dyn FfiFutureExecutor + Send + Sync"):
        for call, ok in (("spawn(async { *e })", False), ("spawn(async { 3u8 })", True), ("spawn_blocking(move || *e)", False), ("block_on(async { *e })", True)):
            add(ok, "%s %s with a borrow" % (x, call), "pub fn f(x: &VirtualPtr<%s>, e: &u8) { let _ = x.%s; }" % (x, call))
        add(False, x + " entered for longer than it lives", "pub fn f(x: VirtualPtr<%s>) { let g = x.enter(); drop(x); use_(g); }" % x)
        add(True, x + " entered", "pub fn f(x: VirtualPtr<%s>) { let g = x.enter(); drop(g); drop(x); }" % x)
        add(True, x + " shared between threads", "pub fn f(x: &'static VirtualPtr<%s>) { ::std::thread::spawn(move || use_(x)); }" % x)
        add(True, x + " sent to a thread", "pub fn f(x: VirtualPtr<%s>) { ::std::thread::spawn(move || use_(x)); }" % x)
        add(True, x + " cloned", "pub fn f(x: &VirtualPtr<%s>) -> VirtualPtr<%s> { x.clone() }" % (x, x))
    for d, ok in (("dyn FfiFuture", False), ("dyn Send + FfiFuture", True)):
        add(ok, "%s sent to a thread" % d, "pub fn f(x: VirtualPtr<%s>) { ::std::thread::spawn(move || use_(x)); }" % d)
        add(True, "%s awaited" % d, "pub async fn f(x: VirtualPtr<%s>) { x.into_future().await }" % d)
        add(ok, "%s awaited in a future that must be Send" % d, "pub fn f(x: VirtualPtr<%s>) { fn s(_: impl Send) {} s(x.into_future()) }" % d)
        add(False, "%s cloned" % d, "pub fn f(x: &VirtualPtr<%s>) -> VirtualPtr<%s> { x.clone() }" % (d, d))
        add(False, "%s awaited after it was moved" % d, "pub async fn f(x: VirtualPtr<%s>) { drop(x); x.into_future().await }" % d)
        add(False, "%s kept for longer" % d, "pub fn f<'b>(x: VirtualPtr<%s>) -> VirtualPtr<%s> { x }" % (d.replace("dyn", "dyn 'b +"), d.replace("dyn", "dyn 'static +")))
        add(False, "%s of a future with a result" % d, "pub fn f(x: Pin<StdBox<dyn Send + Future<Output = u8>>>) -> VirtualPtr<%s> { x.into() }" % d)
        add(False, "%s of a borrowing future" % d, "pub fn f(x: &Cell<u8>) -> VirtualPtr<%s> { StdBox::pin(async move { x.set(3) }).into() }" % d)
    return out


FAMILIES = (types, items, exports, literals, coercions, traits, threads, lifetimes, futures)

# What the header generator looks at is only checked when headers are generated; async functions need their feature.
NEEDS = {"exports": ("headers", "async"), "futures": ("async",)}


def check(prop, tier):
    root = os.path.join(driver.BUILD, "gen", prop)
    shutil.rmtree(root, ignore_errors=True)
    listed = {f for f in (LEAK, ZST) if any(k.startswith(f) for k in driver.known_findings(prop))}
    full = ("headers", "async")
    # (features, tier of the grammar)
    runs = [(full, "quick")]
    if tier == "thorough":
        runs = [(full, "thorough")] + [(f, "quick") for f in ((), ("headers",), ("async",), ("headers", "async", "stabby"))]
    phases, errors = [], collections.Counter()
    try:
        for features, grammar in runs:
            base = sf.Base(list(features))
            programs = []
            for family in FAMILIES:
                if set(NEEDS.get(family.__name__, ())) <= set(features):
                    programs += family(grammar)
            unique = {}
            for p in programs:
                q = unique.setdefault(p.key, p)
                if (q.code, q.expect) != (p.code, p.expect):
                    raise driver.CheckError("two programs of one name: " + p.key)
            programs = list(unique.values())
            try:
                v = verdicts(programs, root, base)
            except PreludeRejected as e:
                raise driver.Violation("the well-formed items that all programs use are rejected (features %s)" % (features,), dict(log=str(e).splitlines()))
            count = collections.Counter()
            for p in programs:
                accepted = v[p.key] is None
                known = accepted != p.expect and p.finding in listed
                count["known" if known else "accepted" if accepted else "rejected"] += 1
                if not accepted:
                    errors[re.sub("`[^`]*`", "`…`", v[p.key])[:80]] += 1
                if accepted != p.expect and not known:
                    raise driver.Violation("a program is %s and should be %s (features %s): %s" % ("accepted" if accepted else "rejected", "accepted" if p.expect else "rejected", ",".join(features), p.key),
                                           dict(log=[p.family + ": " + p.key] + p.code.splitlines() + ["", "rustc: %s" % (v[p.key] or "accepted")]))
            phases.append(dict(features=list(features), programs=len(programs), families=dict(collections.Counter(p.family for p in programs)), **count))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    n = sum(x["programs"] for x in phases)
    return dict(states=n, transitions=n, traces_validated_against_impl=n, distinct_outcomes=len(errors) + 1, exhaustive=True, phases=phases,
                accepted=sum(x["accepted"] for x in phases), rejected=sum(x["rejected"] for x in phases), instances_of_known_findings=sum(x.get("known", 0) for x in phases),
                samples=["%d: %s" % (n, e) for e, n in errors.most_common(40)])
