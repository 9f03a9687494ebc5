"""A model of the exportable Rust types and of the ABI each must have on the other side.

Every type knows its Rust spelling and items, the C declaration a caller must be able to write for it (an independent
specification, not taken from the generated header), and its leaves: the scalars it is made of, with the Rust and the C
path to each. Sizes, alignments and offsets are not modelled: they are asked of rustc.
"""
import re


class Leaf:
    def __init__(self, segs, cpath, ty, via=()):
        self.segs, self.cpath, self.ty = segs, cpath, ty  # segs: [(Rust container, Rust path)]


class Ty:
    rust = key = ""
    lib = False      # a type of safer_ffi itself: the fields are those of its layout
    opaque = False
    pod = True       # may be made and taken by value
    sized_check = True

    def defs(self):
        """{item name: Rust source} needed, dependencies first."""
        out = {}
        for p in self.parts():
            out.update(p.defs())
        return out

    def parts(self):
        return []

    def fields(self):
        """[(Rust path, C path, type)] of an aggregate; None for a scalar."""
        return None

    def holder(self):
        return "safer_ffi::layout::CLayoutOf<%s>" % self.rust if self.lib else self.rust

    def leaves(self):
        f = self.fields()
        if f is None:
            return [Leaf([], "", self)]
        out = []
        for rp, cp, t in f:
            for l in t.leaves():
                out.append(Leaf([(self.holder(), rp)] + l.segs, cp + l.cpath, l.ty))
        return out

    def components(self):
        """Aggregates nested in this one (their header names are found through their own mk_ function)."""
        out = []
        for _, _, t in self.fields() or []:
            out += [t] if t.fields() is not None else []
        return out

    def c(self, d="", const=False):
        """The C declaration of something of this type, declarator d (an independent specification)."""
        raise NotImplementedError

    def abs(self):
        """Another, unambiguous spelling: for comparing with other languages."""
        raise NotImplementedError

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)


def sp(a, d):
    return (a + " " + d).rstrip()


class Prim(Ty):
    C = dict(u8="uint8_t", u16="uint16_t", u32="uint32_t", u64="uint64_t", usize="size_t", i8="int8_t", i16="int16_t",
             i32="int32_t", i64="int64_t", isize="intptr_t", f32="float", f64="double", bool="bool", c_int="int", c_char="char")

    def __init__(self, name):
        self.name = self.key = name
        self.rust = {"c_int": "safer_ffi::c_int", "c_char": "safer_ffi::c_char"}.get(name, name)
        self.size = dict(u8=1, i8=1, bool=1, c_char=1, u16=2, i16=2, u32=4, i32=4, f32=4, c_int=4).get(name, 8)
        self.kind = "bool" if name == "bool" else name[0] if name[0] in "uif" else "i" if name == "c_int" else "char"
        self.signed = self.kind == "i"

    def c(self, d="", const=False):
        return sp(self.C[self.name] + (" const" if const else ""), d)


class Void(Ty):
    rust, key, pod = "()", "void", False

    def c(self, d="", const=False):
        return sp("void" + (" const" if const else ""), d)


class Enum(Ty):
    """variants: [(name, discriminant source or None)]."""

    def __init__(self, name, repr_, variants, rename=None):
        self.name, self.repr, self.variants, self.rename = name, repr_, variants, rename
        self.key, self.rust = name, name
        self.cname = rename or name
        self.backing = Prim("c_int" if repr_ == "C" else repr_)

    def defs(self):
        vs = "".join("    %s%s,\n" % (v, " = " + d if d is not None else "") for v, d in self.variants)
        attr = "#[derive_ReprC%s]" % ('(rename = "%s")' % self.rename if self.rename else "")
        return {self.name: "%s\n#[repr(%s)]\n#[derive(Debug, Clone, Copy, PartialEq)]\npub enum %s {\n%s}\n" % (attr, self.repr, self.name, vs)}

    def c(self, d="", const=False):
        return sp(self.cname + "_t" + (" const" if const else ""), d)

    def enumerator(self, v):
        snake = lambda s: re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", s).upper()
        return snake(self.cname) + "_" + snake(v)


class Ptr(Ty):
    def __init__(self, form, to):
        """form: a Rust template such as '*const {}'."""
        self.form, self.to = form, to
        self.rust = form.format(to.rust)
        self.const = form.startswith(("*const", "&'static {}", "Option<&'static {}>", "safer_ffi::ptr::NonNullRef", "char_ref"))
        self.key = re.sub(r"\W+", "_", form.replace("{}", "").replace("*", "p_").replace("&", "r_").replace("'static", "")).strip("_") + "__" + to.key

    def parts(self):
        return [self.to]

    def c(self, d="", const=False):
        return self.to.c("*" + ("const " if const else "") + d, self.const)

    def components(self):
        t = self.to
        return [t] if t.fields() is not None else t.components() if isinstance(t, (Ptr, Fn)) else []


class CharP(Ptr):
    def __init__(self, which):
        Ty.__init__(self)
        self.to, self.form = Prim("c_char"), which
        self.rust = {"Ref": "char_p::Ref<'static>", "Box": "char_p::Box", "Raw": "char_p::Raw", "OptRef": "Option<char_p::Ref<'static>>", "OptBox": "Option<char_p::Box>"}[which]
        self.const = which in ("Ref", "OptRef", "Raw")
        self.key = "char_p_" + which


class Fn(Ty):
    def __init__(self, ret, args, form="{}"):
        self.ret, self.args, self.form = ret, args, form
        sig = "extern \"C\" fn(%s)%s" % (", ".join(a.rust for a in args), "" if isinstance(ret, Void) else " -> " + ret.rust)
        self.rust = form.format(sig)
        self.key = "fn%d_" % len(self.args) + "_".join([ret.key] + [a.key for a in args]) + ("" if form == "{}" else re.sub(r"\W+", "", form))

    def parts(self):
        return [self.ret] + list(self.args)

    def c(self, d="", const=False):
        args = ", ".join(a.c() for a in self.args) or "void"
        return self.ret.c("(*" + ("const " if const else "") + d + ")(" + args + ")")

    def components(self):
        out = []
        for t in [self.ret] + list(self.args):
            out += [t] if t.fields() is not None else t.components()
        return out


class Struct(Ty):
    """A #[repr(C)] struct of the user."""

    def __init__(self, name, fields, rename=None, tuple_=False, generics=None, attrs="", zsts=()):
        """fields: [(name, type)]; zsts: [(position, Rust type)] of zero-sized fields."""
        self.name, self.fs, self.rename, self.tuple, self.generics, self.zsts = name, fields, rename, tuple_, generics, dict(zsts)
        self.key = name if generics is None else name + "_" + "_".join(t.key for t in generics[1])
        self.rust = name if generics is None else "%s<%s>" % (name, ", ".join(t.rust for t in generics[1]))

    def defs(self):
        out = {}
        for p in self.parts():
            out.update(p.defs())
        attr = "#[derive_ReprC%s]\n#[repr(C)]\n" % ('(rename = "%s")' % self.rename if self.rename else "")
        gen, wh = "", ""
        body = []
        for i in range(len(self.fs) + len(self.zsts) + 1):
            if i in self.zsts:
                body.append(("z%d" % i, self.zsts[i]))
            if i < len(self.fs):
                n, t = self.fs[i]
                r = t.rust
                if self.generics and n in self.generics[2]:
                    r = self.generics[2][n]
                body.append((n, r))
        if self.generics:
            gen = "<%s>" % ", ".join(self.generics[0])
            wh = "where %s" % ", ".join("%s: safer_ffi::layout::ConcreteReprC" % g for g in self.generics[0])
        if self.tuple:
            out[self.name] = "%spub struct %s%s(%s) %s;\n" % (attr, self.name, gen, ", ".join("pub " + r for _, r in body), wh)
        else:
            out[self.name] = "%spub struct %s%s %s {\n%s}\n" % (attr, self.name, gen, wh, "".join("    pub %s: %s,\n" % x for x in body))
        return out

    def parts(self):
        return [t for _, t in self.fs]

    def fields(self):
        if self.tuple:
            return [(".%d" % i, "._%d" % i, t) for i, (_, t) in enumerate(self.fs)]
        return [("." + n, "." + n.replace("r#", ""), t) for n, t in self.fs]

    def c(self, d="", const=False):
        n = (self.rename or self.name) + "_t" if not self.generics else "TY(mk_%s)" % self.key
        return sp(n + (" const" if const else ""), d)


class Transparent(Ty):
    """A #[repr(transparent)] struct of the user around `inner`; renamed: its own name in C."""

    def __init__(self, name, inner, rename=None, zst=None, tuple_=True):
        self.name, self.inner, self.rename, self.zst = name, inner, rename, zst
        self.key, self.rust = name, name

    def defs(self):
        out = dict(self.inner.defs())
        attr = "#[derive_ReprC%s]\n#[repr(transparent)]\n" % ('(rename = "%s")' % self.rename if self.rename else "")
        out[self.name] = "%spub struct %s(pub %s%s);\n" % (attr, self.name, self.inner.rust, ", pub " + self.zst if self.zst else "")
        return out

    def parts(self):
        return [self.inner]

    def fields(self):
        return [(".0", "", self.inner)]

    def components(self):
        return [self.inner] if self.inner.fields() is not None else self.inner.components()

    def c(self, d="", const=False):
        return sp(self.rename + "_t" + (" const" if const else ""), d) if self.rename else self.inner.c(d, const)


class Arr(Ty):
    def __init__(self, t, n):
        self.t, self.n = t, n
        self.key, self.rust = "arr%d_%s" % (n, t.key), "[%s; %d]" % (t.rust, n)

    def parts(self):
        return [self.t]

    def fields(self):
        idx = range(self.n) if self.n <= 8 else [0, 1, self.n - 1]
        return [("[%d]" % i, ".idx[%d]" % i, self.t) for i in idx]

    def c(self, d="", const=False):
        return sp("TY(mk_%s)" % self.key + (" const" if const else ""), d)


class Opaque(Ty):
    opaque, pod = True, False

    def __init__(self, name, rust=None, cname=None, src=None):
        self.key = re.sub(r"\W+", "_", name)
        self.rust, self.cname = rust or name, cname
        self.name, self.src = name, src

    def defs(self):
        return {self.name: self.src} if self.src else {}

    def c(self, d="", const=False):
        return sp((self.cname or "struct ?") + (" const" if const else ""), d)


class Lib(Ty):
    """An aggregate of safer_ffi. fields: [(name, type)] of its layout."""
    lib = True

    def __init__(self, key, rust, fs, parts=(), fieldmap=None):
        self.key, self.rust, self.fs, self.ps = key, rust, fs, list(parts)

    def parts(self):
        return self.ps

    def fields(self):
        return [("." + n, "." + n, t) for n, t in self.fs]

    def components(self):
        out = []
        for _, t in self.fs:
            out += [t] if t.fields() is not None else t.components()
        return out

    def c(self, d="", const=False):
        return sp("TY(mk_%s)" % self.key + (" const" if const else ""), d)


VOID = Void()
P = {n: Prim(n) for n in Prim.C}
CONST, MUT = "*const {}", "*mut {}"


def slice_(which, t):
    p = Ptr(CONST if which == "Ref" else MUT, t)
    rust = {"Ref": "c_slice::Ref<'static, %s>", "Mut": "c_slice::Mut<'static, %s>", "Box": "c_slice::Box<%s>", "Raw": "c_slice::Raw<%s>",
            "OptRef": "Option<c_slice::Ref<'static, %s>>", "OptBox": "Option<c_slice::Box<%s>>"}[which] % t.rust
    p = Ptr(CONST if which in ("Ref", "OptRef") else MUT, t)
    return Lib("slice_%s_%s" % (which, t.key), rust, [("ptr", p), ("len", P["usize"])], [t])


def vec(t):
    return Lib("vec_" + t.key, "repr_c::Vec<%s>" % t.rust, [("ptr", Ptr(MUT, t)), ("len", P["usize"]), ("cap", P["usize"])], [t])


STRING = Lib("string", "repr_c::String", [("ptr", Ptr(MUT, P["u8"])), ("len", P["usize"]), ("cap", P["usize"])])
STRING.flat = True
STR_REF = Lib("str_ref", "str::Ref<'static>", [("ptr", Ptr(CONST, P["u8"])), ("len", P["usize"])])
STR_BOX = Lib("str_box", "str::Box", [("ptr", Ptr(MUT, P["u8"])), ("len", P["usize"])])


def tuple_(*ts):
    return Lib("tuple_" + "_".join(t.key for t in ts), "safer_ffi::Tuple%d<%s>" % (len(ts), ", ".join(t.rust for t in ts)),
               [("_%d" % i, t) for i, t in enumerate(ts)], ts)


def tagged(t):
    return Lib("tagged_" + t.key, "repr_c::TaggedOption<%s>" % t.rust, [("_0", P["bool"]), ("_1", t)], [t])


BYTES = Lib("bytes", "safer_ffi::bytes::Bytes<'static>",
            [("start", Ptr(CONST, P["u8"])), ("len", P["usize"]), ("owner", Ptr(CONST, VOID)), ("capacity", P["usize"]), ("vtable", None)])
VP = Ptr(MUT, VOID)


def closure(kind, ret, args):
    dyn = "%s(%s)%s" % ("Fn" if kind == "Arc" else "FnMut", ", ".join(a.rust for a in args), "" if isinstance(ret, Void) else " -> " + ret.rust)
    call = ("call", Fn(ret, [VP] + list(args)))
    if kind == "Box":
        rust, fs = "repr_c::Box<dyn 'static + Send + %s>" % dyn, [("env_ptr", VP), call, ("free", Fn(VOID, [VP]))]
    elif kind == "Arc":
        rust, fs = "repr_c::Arc<dyn 'static + Send + Sync + %s>" % dyn, [("env_ptr", VP), call, ("release", Fn(VOID, [VP])), ("retain", Fn(VOID, [VP]))]
    else:
        n = len(args)
        rust = "safer_ffi::closure::RefDynFnMut%d<'static, %s>" % (n, ", ".join([ret.rust] + [a.rust for a in args]))
        fs = [("env_ptr", VP), call]
    return Lib("closure_%s_%s" % (kind, "_".join([ret.key] + [a.key for a in args])), rust, fs, [ret] + list(args))


# --- Generation -----------------------------------------------------------------------------------------------

PRELUDE = r"""#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::core::mem::{self, MaybeUninit, size_of, align_of};

macro_rules! off { ($T:ty, $($p:tt)*) => {{
    let u = MaybeUninit::<$T>::zeroed();
    let b = u.as_ptr();
    unsafe { (::core::ptr::addr_of!((*b)$($p)*) as usize) - (b as usize) }
}} }
static ARENA: [u128; 256] = [0; 256];
#[no_mangle] pub extern "C" fn vp_arena() -> usize { ARENA.as_ptr() as usize }
fn mix(seed: u32, i: u32) -> u64 {
    let mut x = (seed as u64) << 32 | (i as u64 + 1);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
/// The bytes a leaf of the given kind has for this seed.
fn leaf(kind: u8, size: usize, values: &[u64], seed: u32, i: u32) -> [u8; 8] {
    let x = mix(seed, i);
    let mut b = match kind {
        b'b' => x & 1,
        b'f' if size == 4 => ((x & 0xffff) as f32 - 30000.5).to_bits() as u64,
        b'f' => ((x & 0xffffffff) as f64 - 30000.5).to_bits(),
        b'p' => vp_arena() as u64 + 16 * (x % 200),
        b'e' => values[(x % values.len() as u64) as usize],
        _ => x,
    }.to_le_bytes();
    for k in size..8 { b[k] = 0; }
    b
}
struct LeafAt { kind: u8, size: usize, off: usize, values: &'static [u64] }
unsafe fn fill(p: *mut u8, leaves: &[LeafAt], seed: u32) {
    for (i, l) in leaves.iter().enumerate() {
        let v = leaf(l.kind, l.size, l.values, seed, i as u32);
        ::core::ptr::copy_nonoverlapping(v.as_ptr(), p.add(l.off), l.size);
    }
}
/// 0, or 1 + the first leaf that differs.
unsafe fn differs(p: *const u8, leaves: &[LeafAt], seed: u32) -> u32 {
    for (i, l) in leaves.iter().enumerate() {
        let v = leaf(l.kind, l.size, l.values, seed, i as u32);
        if ::core::slice::from_raw_parts(p.add(l.off), l.size) != &v[..l.size] { return i as u32 + 1; }
    }
    0
}
fn fsize<T>(_: *const T) -> usize { size_of::<T>() }
type Facts = ::std::collections::BTreeMap<String, Vec<String>>;
fn lang(n: u32) -> ::safer_ffi::headers::Language {
    use ::safer_ffi::headers::Language::*;
    match n { 0 => C, 1 => CSharp, _ => Python }
}
/// The header, or "!" and what went wrong.
#[no_mangle] pub extern "C" fn vp_header(n: u32) -> *mut ::std::os::raw::c_char {
    ::std::env::set_var("CARGO_CRATE_NAME", "vp_lib");
    ::std::panic::set_hook(Box::new(|_| ()));
    let mut out = Vec::new();
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| ::safer_ffi::headers::builder().with_language(lang(n)).to_writer(&mut out).generate()));
    let _ = ::std::panic::take_hook();
    let s = match r {
        Ok(Ok(())) => String::from_utf8(out).unwrap(),
        Ok(Err(e)) => format!("!error: {e}"),
        Err(e) => format!("!panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    ::std::ffi::CString::new(s).unwrap().into_raw()
}
"""


def kind_of(t):
    if isinstance(t, Prim):
        return {"bool": "b", "f": "f"}.get(t.kind, "u")
    if isinstance(t, Enum):
        return "e"
    return "p"


def offset_expr(leaf):
    return " + ".join("off!(%s, %s)" % s for s in leaf.segs) or "0"


def rust_leaves(t):
    """The Rust array of LeafAt of a type."""
    out = []
    for l in t.leaves():
        vals = "&[]"
        if isinstance(l.ty, Enum):
            vals = "&[%s]" % ", ".join("%s::%s as i128 as u64" % (l.ty.rust, v) for v, _ in l.ty.variants)
        out.append("LeafAt { kind: b'%s', size: size_of::<%s>(), off: %s, values: %s }" % (kind_of(l.ty), l.ty.rust, offset_expr(l), vals))
    return "&[%s]" % ", ".join(out)


def closure_of(types):
    """types and the aggregates nested in them, each once."""
    seen, order = set(), []

    def go(t):
        if t.key in seen:
            return
        seen.add(t.key)
        for c in t.components():
            go(c)
        order.append(t)
    for t in types:
        go(t)
    return order


def rust_program(types, extra="", full=lambda t: True):
    types = closure_of(types)
    defs, fns, facts = {}, [], []
    for t in types:
        defs.update(t.defs())
    for t in types:
        if not t.pod:
            continue
        k, T = t.key, t.rust
        fns.append("fn leaves_%s() -> Vec<LeafAt> { Vec::from(%s as [LeafAt; %d]) }" % (k, rust_leaves(t)[1:], len(t.leaves())))
        fns.append("#[ffi_export] pub fn mk_%s(seed: u32) -> %s { unsafe { let mut u = MaybeUninit::<%s>::zeroed(); fill(u.as_mut_ptr().cast(), &leaves_%s(), seed); u.assume_init() } }" % (k, T, T, k))
        if full(t):
            fns.append("#[ffi_export] pub fn eat_%s(x: %s, seed: u32) -> u32 { let x = mem::ManuallyDrop::new(x); unsafe { differs((&x as *const mem::ManuallyDrop<%s>).cast(), &leaves_%s(), seed) } }" % (k, T, T, k))
            fns.append("#[ffi_export] pub fn mixed_%s(a: u8, x: %s, b: f64, y: %s, c: u16) -> u32 { let (x, y) = (mem::ManuallyDrop::new(x), mem::ManuallyDrop::new(y)); if (a, b, c) != (7, 2.5, 777) { return 1000; } unsafe { let (p, q) = (&*x as *const %s, &*y as *const %s); match differs(p.cast(), &leaves_%s(), 5) { 0 => match differs(q.cast(), &leaves_%s(), 6) { 0 => 0, n => 100 + n }, n => n } } }" % (k, T, T, T, T, k, k))
            fns.append("#[ffi_export] pub fn via_%s(x: *const %s, dst: *mut %s, seed: u32) -> u32 { unsafe { fill(dst.cast(), &leaves_%s(), seed + 1); differs(x.cast(), &leaves_%s(), seed) } }" % (k, T, T, k, k))
        facts.append('out.push(format!("T %s {} {}", size_of::<%s>(), align_of::<%s>()));' % (k, T, T))
        for i, l in enumerate(t.leaves()):
            facts.append('out.push(format!("L %s %d {} {}", %s, size_of::<%s>()));' % (k, i, offset_expr(l), l.ty.rust))
    for t in {x.key: x for y in types for x in every(y) if isinstance(x, Enum)}.values():
        for v, _ in t.variants:
            facts.append('out.push(format!("E %s %s {}", %s::%s as i128));' % (t.key, v, t.rust, v))
    return "%s\n%s\n%s\n%s\n#[no_mangle] pub extern \"C\" fn vp_facts() -> *mut ::std::os::raw::c_char { let mut out = Vec::<String>::new();\n%s\n%s\n::std::ffi::CString::new(out.join(\"\\n\")).unwrap().into_raw() }\n" % (
        PRELUDE, "\n".join(defs.values()), "\n".join(fns), extra, "\n".join(facts), "more_facts(&mut out);" if "fn more_facts" in extra else "")


def every(t, seen=None):
    """t and everything it mentions."""
    seen = set() if seen is None else seen
    if t.key in seen:
        return []
    seen.add(t.key)
    out = [t]
    for p in t.parts():
        out += every(p, seen)
    return out
