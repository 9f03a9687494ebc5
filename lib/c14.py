"""C14: what header generation emits, for every small program, order of definition, configuration and output fault."""
import itertools
import json
import os
import re
import shutil
import subprocess

import csharp
import driver
import sf

LANGS = ["C", "CSharp", "Python"]

SFDY = r"""
pub use ::safer_ffi;
use ::safer_ffi::headers::{Language, NamingConvention};

/// The types that the exported items share.
pub mod t {
    use ::safer_ffi::prelude::*;

    /// A leaf.
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Leaf { /** x */ pub x: u8, pub y: u32 }
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Mid { pub l: Leaf, pub p: *const Leaf }
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Top { pub m: Mid, pub l: Leaf, pub a: [Leaf; 2], pub c: Color }
    #[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum Color { Red, Green = 5, /** b */ Blue }
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub enum Zeta { Z }
    #[derive_ReprC] #[repr(opaque)] pub struct Op { pub x: String }
    #[derive_ReprC(rename = "a_renamed")] #[repr(C)] #[derive(Clone, Copy)] pub struct Zed { pub m: *mut Mid, pub k: bool }
    #[derive_ReprC(rename = "wrapped")] #[repr(transparent)] #[derive(Clone, Copy)] pub struct Wrap(pub Leaf);
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Gen<T : ::safer_ffi::layout::ConcreteReprC> { pub t: T, pub z: Zeta }
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Cb { pub f: extern "C" fn(Mid) -> Color, pub d: *mut Leaf }
    #[derive_ReprC(dyn)] pub trait Shape { fn area(&self, scale: Leaf) -> Color; fn top(&self, out: &mut Top); }
}

extern "C" { }
type Write = unsafe extern "C" fn(*mut (), *const u8, usize) -> isize;
struct Sink(Write, *mut ());
impl ::std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
        match unsafe { (self.0)(self.1, b.as_ptr(), b.len()) } {
            -1 => Err(::std::io::Error::new(::std::io::ErrorKind::Other, "injected")),
            -2 => Err(::std::io::ErrorKind::Interrupted.into()),
            n => Ok(n as usize),
        }
    }
    fn flush(&mut self) -> ::std::io::Result<()> { Ok(()) }
}
#[repr(C)] pub struct Cfg { lang: u32, stable: u32, banner: *const i8, guard: *const i8, text: *const i8, naming: u32 }
unsafe fn s(p: *const i8) -> Option<&'static str> { (!p.is_null()).then(|| ::std::ffi::CStr::from_ptr(p.cast()).to_str().unwrap()) }
unsafe fn builder(c: &Cfg) -> ::safer_ffi::headers::Builder<'static, impl Sized> { configured!(c, ::safer_ffi::headers::builder()) }
#[macro_export] macro_rules! configured { ($c:expr, $b:expr) => {{
    let c = $c;
    let mut b = $b;
    // (Language: C is also the default.)
    b = match c.lang { 0 if c.stable == 3 => b, 0 => b.with_language(Language::C), 1 => b.with_language(Language::CSharp), _ => b.with_language(Language::Python) };
    if c.stable < 2 { b = b.with_stable_header(c.stable == 1); }
    if let Some(x) = s(c.banner) { b = b.with_banner(x); }
    if let Some(x) = s(c.guard) { b = b.with_guard(x); }
    if let Some(x) = s(c.text) { b = b.with_text_after_guard(x); }
    match c.naming { 1 => b = b.with_naming_convention(NamingConvention::Default), _ => {} }
    b
}} }
unsafe fn caught(why: *mut u8, n: usize, f: impl FnOnce() -> ::std::io::Result<()>) -> i32 {
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
    let (code, msg) = match r {
        Ok(Ok(())) => return 0,
        Ok(Err(e)) => (1, format!("{e:?}")),
        Err(e) => (2, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    let k = msg.len().min(n - 1);
    ::core::ptr::copy_nonoverlapping(msg.as_ptr(), why, k);
    *why.add(k) = 0;
    code
}
#[no_mangle] pub unsafe extern "C" fn vp_gen(c: &Cfg, w: Write, ctx: *mut (), why: *mut u8, n: usize) -> i32 {
    ::std::panic::set_hook(Box::new(|_| ()));
    caught(why, n, || configured!(c, ::safer_ffi::headers::builder()).to_writer(Sink(w, ctx)).generate())
}
#[no_mangle] pub unsafe extern "C" fn vp_file(c: &Cfg, path: *const i8, why: *mut u8, n: usize) -> i32 {
    ::std::panic::set_hook(Box::new(|_| ()));
    caught(why, n, || configured!(c, ::safer_ffi::headers::builder()).to_file(s(path).unwrap())?.generate())
}
"""
SFDY = SFDY.replace("unsafe fn builder(c: &Cfg) -> ::safer_ffi::headers::Builder<'static, impl Sized> { configured!(c, ::safer_ffi::headers::builder()) }\n", "").replace('extern "C" { }\n', "")
# (macro before its uses)
i = SFDY.index("#[macro_export]")
j = SFDY.index("unsafe fn caught")
SFDY = SFDY[:i].rstrip() + "\n" + SFDY[i:j].replace("#[macro_export] ", "") + SFDY[j:]

# (name, item): names sort differently from this order.
ITEMS = [
    ("m_leaf", "#[ffi_export] pub fn m_leaf(x: Leaf) -> u8 { x.x }"),
    ("z_top", "/// Makes.\n#[ffi_export] pub fn z_top(x: &Top, k: Color) -> Mid { let _ = k; x.m }"),
    ("a_cb", "#[ffi_export] pub fn a_cb(f: extern \"C\" fn(Mid) -> Color, g: Cb) { let _ = (f, g); }"),
    ("f_slice", "#[ffi_export] pub fn f_slice<'a>(x: c_slice::Ref<'a, Leaf>, y: c_slice::Ref<'a, u16>) -> usize { x.len() + y.len() }"),
    ("b_vec", "#[ffi_export] pub fn b_vec(x: repr_c::Vec<Zed>) -> repr_c::Box<Op> { drop(x); Box::new(Op { x: \"\".into() }).into() }"),
    ("c_op", "#[ffi_export] pub fn c_op(x: &'_ Op, y: Option<&mut Zed>) { let _ = (x, y); }"),
    ("y_clo", "#[ffi_export] pub fn y_clo(f: repr_c::Box<dyn 'static + Send + FnMut(Leaf) -> Color>) { drop(f); }"),
    ("d_dyn", "#[ffi_export] pub fn d_dyn(x: VirtualPtr<dyn '_ + Shape>) { drop(x); }"),
    ("g_gen", "#[ffi_export] pub fn g_gen(x: Gen<u8>, y: Gen<Leaf>) -> [Mid; 3] { let _ = x; [Mid { l: y.t, p: &y.t }; 3] }"),
    ("h_arr", "#[ffi_export] pub fn h_arr(x: &[Mid; 3], y: &[[Leaf; 2]; 2], z: char_p::Ref<'_>) { let _ = (x, y, z); }"),
    ("e_wrap", "#[ffi_export] pub fn e_wrap(x: Wrap, y: ::safer_ffi::Tuple2<Wrap, Zeta>) { let _ = (x, y); }"),
    ("n_void", "#[ffi_export] pub fn n_void() {}"),
    ("r_ren", "#[ffi_export(rename = \"aa_ren\")] pub fn r_ren(x: *const Top) -> bool { x.is_null() }"),
    ("K_U", "/// A constant.\n#[ffi_export] pub const K_U: u16 = 5;"),
    ("A_K_STR", "#[ffi_export(untyped)] pub const A_K_STR: &'static str = \"k\";"),
    ("Exp", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Exp { pub m: Mid, pub z: Zed }"),
    ("Bcol", "#[ffi_export] #[derive_ReprC] #[repr(i16)] pub enum Bcol { One = -1, Two }"),
    ("l_out", "#[ffi_export] pub fn l_out(x: Out<'_, Exp2>) { let _ = x; }\n#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Exp2 { pub l: Leaf }"),
    ("Same", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Same { pub c: Color }"),
    ("same_fn", "#[ffi_export(rename = \"Same\")] pub fn same_fn(x: Leaf) { let _ = x; }"),
]
# Pairs of different items that claim one name. (key, two items, C names both claim)
DUPLICATES = [
    ("two functions of one name", "#[ffi_export] pub fn dup(x: u8) -> u8 { x }", "#[ffi_export] pub fn dup(x: u16) -> u8 { x as u8 }"),
    ("a function renamed to the name of another", "#[ffi_export] pub fn dup(x: u8) -> u8 { x }", "#[ffi_export(rename = \"dup\")] pub fn other(x: Leaf) { let _ = x; }"),
    ("two constants of one name", "#[ffi_export] pub const DUP: u8 = 1;", "#[ffi_export] pub const DUP: u16 = 2;"),
    ("a constant and a function of one name", "#[ffi_export] pub const dup: u8 = 1;", "#[ffi_export] pub fn dup(x: u16) -> u8 { x as u8 }"),
    ("a function with the C name of a type", "#[ffi_export] pub fn Dup_t(x: u8) -> u8 { x }", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: Color }"),
    ("a constant with the C name of a type", "#[ffi_export] pub const Dup_t: u8 = 1;", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: Color }"),
    ("two exported structs of one name", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: Color }", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: u32 }"),
    ("two structs of one name behind functions", "#[ffi_export] pub fn d1(x: Dup) { drop(x); } #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: Color }",
     "#[ffi_export] pub fn d2(x: Dup) { drop(x); } #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: u32 }"),
    ("a struct renamed to the name of another", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: Color }", "#[ffi_export] #[derive_ReprC(rename = \"Dup\")] #[repr(C)] pub struct Other { pub c: u32 }"),
    ("an enum and a struct of one name", "#[ffi_export] #[derive_ReprC] #[repr(u8)] pub enum Dup { A, B }", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Dup { pub c: u32 }"),
    ("a constant with the name of an enumerator", "#[ffi_export] pub const COLOR_RED: u8 = 7;", "#[ffi_export] pub fn f(c: Color) { let _ = c; }"),
    ("two enums with one enumerator", "#[ffi_export] #[derive_ReprC] #[repr(u8)] pub enum Dup { A, B }", "#[ffi_export] #[derive_ReprC] #[repr(u8)] pub enum dup { A, C }"),
    ("two opaque types of one name", "#[ffi_export] pub fn d1(x: &Dup) { let _ = x; } #[derive_ReprC] #[repr(opaque)] pub struct Dup { pub c: String }",
     "#[ffi_export] pub fn d2(x: &Dup) { let _ = x; } #[derive_ReprC] #[repr(opaque)] pub struct Dup { pub c: u32 }"),
]

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|#[^\n]*|[A-Za-z_]\w*|\d[\w.]*|\s+|.', re.S)
WORDS = set("typedef struct union enum const void char short int long float double unsigned signed bool _Bool static extern int8_t int16_t int32_t int64_t uint8_t uint16_t uint32_t uint64_t size_t ptrdiff_t uintptr_t intptr_t".split())


class Bad(Exception):
    pass


class Decl:
    def __init__(self, text, names, uses):
        self.text, self.names, self.uses = text, names, uses


def c_decls(body):
    """The top-level declarations of C code, each with the comments before it."""
    out, toks, text, depth, skip = [], [], [], 0, []
    for m in TOK.finditer(body):
        t = m.group(0)
        text.append(t)
        if t.isspace() or t.startswith("//") or t.startswith("/*"):
            continue
        if t[0] == "#" and t[1:].split()[0] in ("ifdef", "ifndef", "else", "endif"):
            w = t[1:].split()
            if w[0] in ("ifdef", "ifndef"):
                skip.append(w[0] == "ifdef")
            elif w[0] == "else":
                skip[-1] = not skip[-1]
            else:
                skip.pop()
            continue
        if any(skip):
            continue
        if t[0] == "#":
            if depth or toks:
                raise Bad("directive within a declaration: %s" % t)
            w = t[1:].split()
            if w[0] == "define":
                out.append(Decl("".join(text).strip(), [w[1]], re.findall(r"[A-Za-z_]\w*_t\b", t)))
            elif w[0] != "include":
                raise Bad("directive: %s" % t)
            text = [] if w[0] == "define" else text
            if w[0] == "include":
                out.append(Decl("".join(text).strip(), [t], []))
                text = []
            continue
        toks.append(t)
        depth += t in "{(" and len(t) == 1
        depth -= t in "})" and len(t) == 1
        if t == ";" and not depth:
            out.append(declared("".join(text).strip(), toks))
            toks, text = [], []
    if toks:
        raise Bad("unfinished: %s" % "".join(text)[:80])
    return out


def declared(text, toks):
    names = []
    if toks[0] == "typedef":
        # The declarator: the last identifier at depth 0, or the one of `(*name)`.
        d, name, tags = 0, None, []
        for i, t in enumerate(toks):
            if t == "{" or t == "(":
                if t == "(" and d == 0 and toks[i + 1] == "*":
                    name = next(x for x in toks[i + 1:] if re.match(r"[A-Za-z_]", x))
                    break
                d += 1
            elif t in ")}":
                d -= 1
            elif d == 0 and re.match(r"[A-Za-z_]\w*$", t) and t not in WORDS or d == 0 and t.endswith("_t") and i and toks[i - 1] != "typedef":
                name = t
            if t in ("struct", "enum") and re.match(r"[A-Za-z_]", toks[i + 1]):
                names.append(t + " " + toks[i + 1])
        names.append(name)
        if toks[1] == "enum" and "{" in toks:
            body = toks[toks.index("{") + 1:toks.index("}")]
            names += [t for i, t in enumerate(body) if re.match(r"[A-Za-z_]", t) and (i == 0 or body[i - 1] == ",")]
    elif toks[0] in ("struct", "enum") and "{" in toks:
        names.append(toks[0] + " " + toks[1])
        if toks[0] == "enum":
            body = toks[toks.index("{") + 1:toks.index("}")]
            names += [t for i, t in enumerate(body) if re.match(r"[A-Za-z_]", t) and (i == 0 or body[i - 1] == ",")]
    elif "(" in toks:
        # A function (possibly one that returns a function pointer).
        i = toks.index("(")
        while toks[i + 1] == "*" or not re.match(r"[A-Za-z_]", toks[i - 1]) or toks[i - 1] in WORDS:
            i = toks.index("(", i + 1)
        names.append(toks[i - 1])
    else:
        names.append(next(t for t in reversed(toks) if re.match(r"[A-Za-z_]", t)))
    tag = lambda i: i and toks[i - 1] in ("struct", "enum", "union")
    return Decl(text, names, [toks[i - 1] + " " + t if tag(i) else t for i, t in enumerate(toks) if re.match(r"[A-Za-z_]", t)])


def cs_decls(body):
    out, text, depth, toks = [], [], 0, []
    for m in TOK.finditer(body):
        t = m.group(0)
        text.append(t)
        if t.isspace() or t.startswith("//") or t.startswith("/*"):
            continue
        toks.append(t)
        depth += t in "{(" and len(t) == 1
        depth -= t in "})" and len(t) == 1
        if not depth and t in ";}":
            s = "".join(text).strip()
            if "class" in toks[:6]:
                i = toks.index("(") if "extern" in toks else toks.index("=")
                if "extern" in toks:
                    i = toks.index("(", toks.index("extern"))
                names = ["Ffi." + toks[i - 1]]
            elif "delegate" in toks:
                i = toks.index("(", toks.index("delegate"))
                names = [toks[i - 1]]
            else:
                i = next(i for i, x in enumerate(toks) if x in ("struct", "enum"))
                names = [toks[i + 1]]
            out.append(Decl(s, names, []))
            text, toks = [], []
    if toks:
        raise Bad("unfinished: %s" % "".join(text)[:80])
    return out


def decls(lang, body):
    return cs_decls(body) if lang == 1 else c_decls(body)


def well_formed(ds, where):
    """Each name once, and before its first use."""
    at = {}
    for i, d in enumerate(ds):
        for n in d.names:
            if n in at:
                raise Bad("%s: %s is declared twice" % (where, n))
            at[n] = i
    for i, d in enumerate(ds):
        for u in d.uses:
            if at.get(u, i) > i:
                raise Bad("%s: %s is used before its declaration" % (where, u))


class Universe:
    def __init__(self, base, root, items=ITEMS):
        self.root, self.items = root, items
        os.makedirs(root, exist_ok=True)
        src = os.path.join(root, "sfdy.rs")
        open(src, "w").write(SFDY)
        dy = ["-C", "prefer-dynamic", "-C", "opt-level=0"]
        self.sfdy = os.path.join(root, "libsfdy.so")
        sf.must(base.rustc(src, self.sfdy, kind="dylib", extra=dy, name="sfdy"), "sfdy")
        self.base = base
        base.externs["sfdy"] = self.sfdy
        self.dy = dy
        self.walk = os.path.join(root, "walk")
        sf.must(driver.run(["gcc", "-O1", "-o", self.walk, os.path.join(driver.HERE, "lib", "c14_walk.c"), "-ldl"]), "walk")
        sysroot = sf.must(driver.run(["rustc", "--print", "sysroot"], env=base.env), "sysroot").stdout.strip()
        self.env = dict(os.environ, LD_LIBRARY_PATH="%s:%s/lib" % (root, sysroot), CARGO_CRATE_NAME="vp_lib")
        self.env.pop("CARGO_PKG_NAME", None)
        self.libs = sf.parallel(lambda x: self.item(*x), [(n, code) for n, code in items])

    def item(self, name, code):
        src = os.path.join(self.root, "item_%s.rs" % name)
        so = os.path.join(self.root, "lib%s.so" % name)
        open(src, "w").write("extern crate sfdy; use sfdy::t::*; use ::safer_ffi::prelude::*;\n%s\n" % code)
        sf.must(self.base.rustc(src, so, kind="dylib", extra=self.dy, name="item_" + name, crates=("safer_ffi", "sfdy")), "item " + name)
        return so

    def records(self, args, stdin=None, env=None):
        p = subprocess.Popen([self.walk, self.sfdy, "3"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, env=env or self.env)
        if stdin is not None:
            p.stdin.write(stdin.encode())
            p.stdin.close()
        while True:
            line = p.stdout.readline()
            if not line:
                break
            f = line.decode().rstrip("\n").split(" ")
            text = None
            if f[0] in "TC":
                n = int(f[5] if f[0] == "T" else f[2])
                text = p.stdout.read(n + 1)[:-1].decode()
            yield f, text
        err = p.stderr.read().decode()
        if p.wait():
            raise driver.CheckError("walk %s: %s %s" % (args[:3], p.returncode, err[-2000:]))


def body(lang, text, ends, where):
    pre, post = ends[lang]
    if not (text.startswith(pre) and text.endswith(post) and len(text) >= len(pre) + len(post)):
        raise Bad("%s: the prelude or the end is not that of the empty program" % where)
    return text[len(pre):len(text) - len(post)]


def compiles(lang, text, where, dir_):
    if lang == 0:
        for cc, std in (("gcc", "c99"), ("g++", "c++11")):
            r = subprocess.run([cc, "-x", "c" if cc == "gcc" else "c++", "-std=" + std, "-fsyntax-only", "-pedantic-errors", "-"], input=text + text, capture_output=True, text=True)
            if r.returncode:
                raise Bad("%s: %s: %s" % (where, cc, r.stderr[:400]))
    elif lang == 1:
        try:
            csharp.Source(text)
        except csharp.Error as e:
            raise Bad("%s: %s" % (where, e))


class Oracle:
    """What each item alone gives."""

    def __init__(self, uni):
        self.uni, self.ends, self.solo = uni, {}, {}
        empty = {}
        for f, text in uni.records(["walk", "0", "-1"] + uni.libs):
            self.status(f)
            empty[int(f[2])] = text
        texts = {}
        for i in range(len(uni.libs)):
            for f, text in uni.records(["walk", "1", str(i)] + uni.libs):
                self.status(f)
                texts[int(f[2]), int(f[3]), i] = text
        for lang in range(3):
            pre = os.path.commonprefix([empty[lang]] + [t for k, t in texts.items() if k[0] == lang])
            pre = pre[:pre.rfind("\n") + 1]
            self.ends[lang] = (pre, empty[lang][len(pre):])
        for (lang, st, i), t in texts.items():
            name = "%s of %s alone" % (LANGS[lang], uni.items[i][0])
            ds = decls(lang, body(lang, t, self.ends, name))
            well_formed(ds, name)
            compiles(lang, t, name, None)
            if self.solo.setdefault((lang, i), [d.text for d in ds]) != [d.text for d in ds]:
                raise Bad("%s: the stable and the other header differ" % name)
            want = re.search(r'(?:rename = "(\w+)"|pub (?:fn|const|struct|enum) (\w+))', uni.items[i][1])
            want = want.group(1) or want.group(2)
            if not any(n.split(".")[-1] in (want, want + "_t") for d in ds for n in d.names) and not (lang == 1 and "untyped" in uni.items[i][1]):
                raise Bad("%s does not declare %s" % (name, want))
        self.extra = set()

    def tie(self, seq):
        """Of a type and a function of one name, either may come first (as they were defined)."""
        names = [i for i in seq if self.uni.items[i][0] in ("Same", "same_fn")]
        return len(names) == 2 and names[0] > names[1]

    def status(self, f):
        if f[0] == "D":
            raise Bad("%s: two runs of one program gave different output" % " ".join(f))
        if f[0] == "X":
            raise driver.CheckError(" ".join(f))
        r = int(f[4] if f[0] == "T" else f[3])
        if r:
            raise Bad("generation of %s failed with %d" % (" ".join(f), r))

    def judge(self, seq, lang, text):
        where = "%s of %s" % (LANGS[lang], " then ".join(self.uni.items[i][0] for i in seq))
        ds = decls(lang, body(lang, text, self.ends, where))
        well_formed(ds, where)
        got, want = [d.text for d in ds], {x for i in seq for x in self.solo[lang, i]}
        if len(set(got)) != len(got):
            raise Bad("%s: declared twice: %s" % (where, [x for x in got if got.count(x) > 1][0]))
        if set(got) != want:
            raise Bad("%s: missing %s; unexpected %s" % (where, sorted(want - set(got))[:3], sorted(set(got) - want)[:3]))
        return len(ds)


def explore(args):
    """All sequences that begin with item i."""
    oracle, depth, i, compile_sets = args
    n = dict(headers=0, sequences=set(), declarations=0, compiled=0)
    hashes = {}
    try:
        for f, text in oracle.uni.records(["walk", str(depth), str(i)] + oracle.uni.libs):
            oracle.status(f)
            seq = tuple(map(int, f[1].split(",")))
            lang = int(f[2])
            n["sequences"].add(seq)
            n["headers"] += 2
            if f[0] == "H":
                hashes.setdefault((lang, tuple(sorted(seq)), oracle.tie(seq)), set()).add(f[4])
                continue
            if f[3] == "1":
                hashes.setdefault((lang, seq, oracle.tie(seq)), set()).add(f[6])
            n["declarations"] += oracle.judge(seq, lang, text)
            if len(seq) == 2 or compile_sets and f[3] == "1" and len(seq) <= compile_sets:
                compiles(lang, text, "%s of %s" % (LANGS[lang], [oracle.uni.items[j][0] for j in seq]), None)
                n["compiled"] += 1
    except Bad as e:
        return ("bad", str(e))
    except driver.CheckError as e:
        return ("error", str(e))
    n["sequences"] = len(n["sequences"])
    return ("ok", n, hashes)


def sequences(uni, oracle, tier):
    import multiprocessing
    depth = 3 if tier == "quick" else 4
    with multiprocessing.get_context("fork").Pool(sf.JOBS) as pool:
        res = pool.map(explore, [(oracle, depth, i, 2 if tier == "quick" else 3) for i in range(len(uni.libs))], chunksize=1)
    tot, hashes = {}, {}
    for r in res:
        if r[0] == "bad":
            raise Bad(r[1])
        if r[0] == "error":
            raise driver.CheckError(r[1])
        for k, v in r[1].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r[2].items():
            hashes.setdefault(k, set()).update(v)
    for (lang, s, _), v in hashes.items():
        if len(v) != 1:
            raise Bad("%s stable header of %s depends on the order of definition" % (LANGS[lang], [uni.items[i][0] for i in s]))
    return dict(tot, sets=len(hashes), depth=depth)


def duplicates(base, root, tier):
    """Two different items that claim one name: an error, unless both are emitted and no name is declared twice."""
    known = driver.known_findings("C14")
    found, n = [], 0

    def pair(case):
        i, (key, x, y) = case
        uni = Universe(base, os.path.join(root, "dup%d" % i), [("x", x), ("y", y)])
        oracle = Oracle(uni)
        out = []
        for first in ("0", "1"):
            for f, text in uni.records(["walk", "2", first] + uni.libs):
                if "," not in f[1] or f[0] == "H":
                    if f[0] == "H" and f[3] == "2":
                        out.append((f, "panic"))
                    continue
                seq, lang, st, r = tuple(map(int, f[1].split(","))), int(f[2]), int(f[3]), int(f[4])
                bad = None
                if f[0] != "T" or r == 2:
                    bad = "generation panicked or is not deterministic"
                elif r == 0:
                    try:
                        oracle.judge(seq, lang, text)
                    except Bad as e:
                        bad = str(e)
                if bad:
                    out.append((f, bad))
        shutil.rmtree(uni.root, ignore_errors=True)
        return out
    for (key, x, y), out in zip(DUPLICATES, sf.parallel(pair, list(enumerate(DUPLICATES)))):
        n += 1
        if out and not any(k.startswith(key + ":") for k in known):
            raise Bad("%s: %s\n  %s\n  %s" % (key, out[0][1][:600], x, y))
        found.append(bool(out))
    return dict(pairs=n, listed=sum(found))


def faults(uni):
    """Every output fault at every write and after every byte, for two programs and all languages."""
    def one(libs):
        n = 0
        for f, _ in uni.records(["faults"] + libs):
            if f[0] == "X":
                raise driver.CheckError(" ".join(f))
            if f[:2] == ["F", "bad"]:
                return "output fault, %s (stable %s): %s" % (LANGS[int(f[2])], f[3], " ".join(f[4:]))
            n += int(f[4])
        return n
    res = sf.parallel(one, [[], uni.libs[:4], uni.libs[4:9], uni.libs[9:14], uni.libs[14:]])
    for r in res:
        if isinstance(r, str):
            raise Bad(r)
    return sum(res)


BANNERS = ["-", "/* one */", "// two lines"]
GUARDS = ["-", "MY_GUARD_H"]
TEXTS = ["-", "=", "#define VP_TEXT 1", "/* text */"]


def configurations(uni, oracle):
    libs = [uni.libs[i] for i in (1, 4, 8, 13)]
    grid = list(itertools.product(range(3), (0, 1, 2, 3), BANNERS, GUARDS, TEXTS, (0, 1)))
    stdin = "".join("\t".join(map(str, g)) + "\n" for g in grid)
    n = 0
    bodies = {}
    for env_name, env, guard in (("CARGO_CRATE_NAME", dict(CARGO_CRATE_NAME="my_cool_lib"), "__RUST_MY_COOL_LIB__"), ("CARGO_PKG_NAME", dict(CARGO_PKG_NAME="my-cool-lib"), "__RUST_MY_COOL_LIB__"),
                                 ("both", dict(CARGO_CRATE_NAME="qzq", CARGO_PKG_NAME="other-name"), "__RUST_QZQ__"), ("none", {}, None)):
        e = {k: v for k, v in uni.env.items() if k != "CARGO_CRATE_NAME"}
        e.update(env)
        out = [(int(f[1]), text) for f, text in uni.records(["config"] + libs, stdin, e) if f[0] == "C"]
        if len(out) != len(grid):
            raise driver.CheckError("configurations: %d of %d" % (len(out), len(grid)))
        for (lang, st, banner, g, text, naming), (status, h) in zip(grid, out):
            where = "%s, stable %s, banner %r, guard %r, text %r, naming %d, name by %s" % (LANGS[lang], st, banner, g, text, naming, env_name)
            n += 1
            if guard is None and (lang == 1 or lang == 0 and g == "-"):
                # Nothing to name the library after.
                if status == 0:
                    raise Bad("%s: generated without a name" % where)
                continue
            if guard is None and lang == 2 and status:
                continue
            if status:
                raise Bad("%s: failed with %d" % (where, status))
            if banner != "-" and not h.startswith(banner + "\n") or banner == "-" and not h.startswith("/*!"):
                raise Bad("%s: begins with %r" % (where, h[:40]))
            rest = h[len(banner):] if banner != "-" else h[h.index("*/", h.index("****")) + 2:]
            if lang == 0:
                name = g if g != "-" else guard
                dirs = re.findall(r"^[ \t]*#[ \t]*(\w+)[ \t]*(.*?)[ \t]*$", rest, re.M)
                if dirs[0] not in (("ifndef", name), ("if", "!defined(%s)" % name)) or dirs[1][0] != "define" or dirs[1][1].split()[0] != name or dirs[-1][0] != "endif" or rest[rest.rindex("#endif"):].count("\n") > 1:
                    raise Bad("%s: no guard %s around the header: %s … %s" % (where, name, dirs[:3], dirs[-1]))
                after = rest[rest.index(name, rest.index("define")) + len(name):]
                if text not in "-=":
                    if not after.lstrip().startswith(text + "\n"):
                        raise Bad("%s: the text does not follow the guard" % where)
                    after = after.replace(text, "", 1)
                b = re.sub(r"\b%s\b" % name, "GUARD", after)
                b = re.sub(r"^\s+", "\n", b)
            elif lang == 1:
                want = "MyCoolLib" if "my" in str(env) else "Qzq"
                if not re.search(r"^namespace %s\s*\{" % want, rest, re.M) or not re.search(r'string RustLib = "%s";' % ("my_cool_lib" if "my" in str(env) else "qzq"), rest):
                    raise Bad("%s: not in the namespace %s" % (where, want))
                b = rest.replace(want, "NS").replace("my_cool_lib", "LIB").replace("qzq", "LIB")
            else:
                b = rest
            b = b.strip()
            # The rest is the same for all configurations. (Stable headers are the default.)
            key = (lang, "unstable" if st == 0 else "stable")
            if bodies.setdefault(key, b) != b:
                raise Bad("%s: the declarations depend on the configuration" % where)
    return n


def files(uni, oracle, root):
    libs = uni.libs[:3]
    texts = {int(f[2]): text for f, text in uni.records(["walk", "3", "0"] + libs) if f[0] == "T" and f[1] == "0,1,2" and f[3] == "1"}
    n = 0

    def gen(path, lang, limit=-1):
        r = [f for f, _ in uni.records(["file", path, str(lang), "1", str(limit)] + libs) if f[0] == "R"]
        return int(r[0][1]), " ".join(r[0][2:])
    d = os.path.join(root, "files")
    os.makedirs(d)
    for lang, want in texts.items():
        data = want.encode()
        path = os.path.join(d, "h%d" % lang)
        for before in (None, b"", b"x" * (len(data) + 1000), data[:-1], b"y"):
            if os.path.exists(path):
                os.remove(path)
            if before is not None:
                open(path, "wb").write(before)
            r = gen(path, lang)
            n += 1
            if r[0] or open(path, "rb").read() != data:
                raise Bad("%s to a file with %s bytes: status %s, not the header" % (LANGS[lang], before and len(before), r))
        for bad in ("/dev/full", d, os.path.join(d, "no", "such"), ""):
            n += 1
            if gen(bad, lang)[0] != 1:
                raise Bad("%s to %r: no error" % (LANGS[lang], bad))
        for limit in (0, 1, 2, 10, len(data) // 2, len(data) - 2, len(data) - 1):
            os.remove(path)
            n += 1
            r = gen(path, lang, limit)
            if r[0] != 1 or open(path, "rb").read() != data[:limit]:
                raise Bad("%s to a file of at most %d bytes: status %s" % (LANGS[lang], limit, r))
        if gen(path, lang, len(data))[0]:
            raise Bad("%s to a file of just the size failed" % LANGS[lang])
    shutil.rmtree(d)
    return n


# --- Distinct types get distinct names.

UNARY = ["&'static {}", "&'static mut {}", "*const {}", "[{}; 2]", "[{}; 4]", "::safer_ffi::slice::slice_ref<'static, {}>", "::safer_ffi::slice::slice_mut<'static, {}>",
         "c_slice::Box<{}>", "repr_c::Vec<{}>", "repr_c::Box<{}>", "::safer_ffi::option::TaggedOption<{}>", "Gen<{}>", "Wr<{}>", "Rc<{}>", "Rw<{}>", "&'static Opq<{}>", "&'static Ro<{}>",
         "extern \"C\" fn() -> {}", "extern \"C\" fn({})", "BoxDynFnMut0<{}>", "BoxDynFnMut1<(), {}>", "ArcDynFn1<(), {}>", "RefDynFnMut1<'static, (), {}>"]
BINARY = ["::safer_ffi::Tuple2<{}, {}>", "Gen2<{}, {}>", "extern \"C\" fn({}) -> {}", "extern \"C\" fn({}, {})", "BoxDynFnMut1<{}, {}>", "&'static Opq2<{}, {}>"]
NAMES_RS = r"""
use ::safer_ffi::{prelude::*, closure::*, layout::*};
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Leaf { pub x: u8, pub y: u32 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Leaf2 { pub x: u16 }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum Color { Red, Green }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Gen<T : ConcreteReprC> { pub t: T }
#[derive_ReprC(rename = "renamed_struct")] #[repr(C)] #[derive(Clone, Copy)] pub struct Rc<T : ConcreteReprC> { pub t: T }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Gen2<T : ConcreteReprC, U : ConcreteReprC> { pub t: T, pub u: U }
#[derive_ReprC] #[repr(transparent)] #[derive(Clone, Copy)] pub struct Wr<T : ConcreteReprC>(pub T);
#[derive_ReprC(rename = "renamed_wrapper")] #[repr(transparent)] #[derive(Clone, Copy)] pub struct Rw<T : ConcreteReprC>(pub T);
#[derive_ReprC] #[repr(opaque)] pub struct Opq<T : 'static>(T);
#[derive_ReprC(rename = "renamed_opaque")] #[repr(opaque)] pub struct Ro<T : 'static>(T);
#[derive_ReprC] #[repr(opaque)] pub struct Opq2<T : 'static, U : 'static>(T, U);
fn p<T : ReprC>(k: usize) {
    let mut out = Vec::new();
    let mut d = ::safer_ffi::headers::HashSetDefiner { defines_set: Default::default(), out: &mut out };
    <T::CLayout as CType>::define_self(&::safer_ffi::headers::languages::C, &mut d).unwrap();
    println!("{k}\u{1}{}\u{1}{}\u{2}", <T::CLayout as CType>::name(&::safer_ffi::headers::languages::C), String::from_utf8(out).unwrap());
}
fn main() {
"""


def erased(t):
    """The words of t without those of arrays, pointers and function types (whose names are made of suffixes), and these."""
    post = re.findall(r"; \d+\]|&'static mut|&'static|\*const|repr_c::Box|extern", t)
    t = re.sub(r"; \d+\]|&'static mut|&'static|\*const|repr_c::Box|extern \"C\" fn|\bWr\b|::safer_ffi::", "", t)
    same = {"*const": "&'static", "repr_c::Box": "&'static mut"}
    return sorted(re.findall(r"\w+", t)), sorted(same.get(x, x) for x in post)


NAME_BASES = ["u8", "u16", "bool", "Leaf", "Color", "Leaf2"]
NAME_D1 = [u.format(b) for u in UNARY for b in NAME_BASES]


def names(base, root, tier):
    """Types of different definitions have different names."""
    known = driver.known_findings("C14")
    small = ["u8", "Leaf"] + [u.format("u8") for u in UNARY[:17]]
    types = NAME_BASES + NAME_D1 + [u.format(t) for u in UNARY for t in NAME_D1] + [b.format(x, y) for b in BINARY for x in small for y in small]
    if tier != "quick":
        types += [u.format(v.format(w.format(b))) for u in UNARY for v in UNARY for w in UNARY for b in NAME_BASES[:2]]
        types += [b.format(x, y) for b in BINARY for x in small for y in [c.format(*p) for c in BINARY for p in (("u8", "u16"), ("u16", "Leaf"))]]
        types += [b.format(y, x) for b in BINARY for x in small for y in [c.format(*p) for c in BINARY for p in (("u8", "u16"), ("u16", "Leaf"))]]
    types = list(dict.fromkeys(types))
    n = max(16, len(types) // 900)

    def chunk(k):
        idx = range(k, len(types), n)
        src, exe = os.path.join(root, "names%d.rs" % k), os.path.join(root, "names%d" % k)
        open(src, "w").write(NAMES_RS + "".join("    p::<%s>(%d);\n" % (types[i], i) for i in idx) + "}\n")
        sf.must(base.rustc(src, exe, extra=["-C", "opt-level=0"]), "names")
        r = driver.run([exe])
        if r.returncode:
            raise Bad("defining one of %s panicked: %s" % ([types[i] for i in idx][r.stdout.count("\x02"):][:1], r.stderr[-500:]))
        for x in (src, exe):
            os.remove(x)
        return [rec.split("\x01") for rec in r.stdout.split("\x02\n") if rec]
    by = {}
    for recs in sf.parallel(chunk, range(n)):
        for k, name, text in recs:
            by.setdefault(name, {}).setdefault(text, []).append(types[int(k)])
    listed = {}
    for name, d in sorted(by.items()):
        for (_, a), (_, b) in itertools.combinations(sorted(d.items()), 2):
            for x, y in itertools.product(a, b):
                (ex, lx), (ey, ly) = erased(x), erased(y)
                if lx and lx == ly and ex == ey:
                    key = "the suffixes of arrays, pointers and functions"
                elif "renamed_" in name:
                    key = "two instances of a renamed generic type"
                else:
                    key = "%s and %s" % (x, y)
                if not any(k.startswith(key + ":") for k in known):
                    raise Bad("%s and %s have different definitions and one C name, %s" % (x, y, name))
                listed[key] = listed.get(key, 0) + 1
    return dict(types=len(types), names=len(by), listed=listed)


def check(prop, tier):
    base = sf.Base(["headers", "async"])
    root = os.path.join(driver.BUILD, "gen", prop)
    shutil.rmtree(root, ignore_errors=True)
    try:
        uni = Universe(base, root)
        oracle = Oracle(uni)
        seq = sequences(uni, oracle, tier)
        nf = faults(uni)
        nc = configurations(uni, oracle)
        nfile = files(uni, oracle, root)
        dup = duplicates(base, root, tier)
        nn = names(base, root, tier)
    except Bad as e:
        raise driver.Violation(str(e)[:1500], dict(log=[]))
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
    return dict(states=seq["sequences"], transitions=seq["headers"] + nf + nc + nfile + nn["types"], traces_validated_against_impl=seq["headers"],
                distinct_outcomes=seq["sets"], output_faults=nf, configurations=nc, files=nfile, duplicates=dup, names=nn, exhaustive=True, sequences=seq,
                samples=["items: " + ", ".join(i[0] for i in ITEMS)] + ["duplicate pair: %s" % d[0] for d in DUPLICATES])
