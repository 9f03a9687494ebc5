"""The bounded grammar of exportable types and items, in batches (one Rust library and its headers each)."""
import itertools

from abi import *


class Batch:
    def __init__(self, name, types, rust="", c_static=None, c_main="", full=None, wide=False):
        self.name, self.types, self.rust = name, types, rust
        self.c_static = c_static or (lambda facts: "")
        self.c_main = c_main
        self.full = full or (lambda t: True)
        self.wide = wide
        self.consts, self.fns = [], []


NUM = [P[n] for n in "u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool c_int".split()]
REPRS = "u8 u16 u32 u64 i8 i16 i32 i64".split()
E8 = Enum("SmallEnum", "u8", [("FirstOne", None), ("Second", "9"), ("Third", None)])
E64 = Enum("WideEnum", "i64", [("Minus", "-5"), ("Next", None), ("Far", "100")])
EC = Enum("PlainEnum", "C", [("Zero", None), ("One", None), ("Ten", "10")])
PAIR = Struct("Pair", [("first", P["u8"]), ("second", P["u32"])])
FLT = Struct("Floats", [("x", P["f32"]), ("y", P["f32"])])
BIG = Struct("Big", [("a", P["u64"]), ("b", P["f64"]), ("c", P["u8"])])
OPQ = Opaque("Hidden", src="#[derive_ReprC]\n#[repr(opaque)]\npub struct Hidden { x: u8 }\n", cname="Hidden_t")
OPQ_R = Opaque("HiddenRenamed", src='#[derive_ReprC(rename = "hidden_thing")]\n#[repr(opaque)]\npub enum HiddenRenamed { A(u8) }\n', cname="hidden_thing_t")
CB = Fn(P["u16"], [P["u8"]])


def enums():
    out = []
    for r in REPRS + ["C"]:
        R = "i32" if r == "C" else r
        signed, bits = R[0] == "i", int(R[1:])
        t = r.upper()
        out.append(Enum("Single" + t, r, [("Only", None)]))
        out.append(Enum("Implicit" + t, r, [("Aa", None), ("Bb", None), ("Cc", None), ("Dd", None)]))
        out.append(Enum("Explicit" + t, r, [("Aa", "3"), ("Bb", None), ("Cc", "1"), ("Dd", None)]))
        out.append(Enum("Previous" + t, r, [("Hi", "100"), ("Lower", "(Previous%s::Hi as %s - 1) as _" % (t, R)), ("Lowest", "Previous%s::Lower as %s as _" % (t, R) if False else "7")]))
        if signed:
            out.append(Enum("Negative" + t, r, [("Far", "-100"), ("Near", "-2"), ("Nearer", None), ("Zero", None)]))
            out.append(Enum("Extreme" + t, r, [("Min", ("isize" if False else R) + "::MIN" + (" as isize" if r == "C" else "")), ("Above", None), ("Max", R + "::MAX" + (" as isize" if r == "C" else ""))]))
        else:
            out.append(Enum("Extreme" + t, r, [("Min", "0"), ("Below", R + "::MAX - 1"), ("Max", None)]))
        if bits >= 32 and r != "C":
            out.append(Enum("Literal" + t, r, [("Small", "1"), ("Sign", "0x7fff_fffe"), ("Over", None), ("Next", "0x7fff_ffff + %d" % (0 if bits == 32 and signed else 5))][: 3 if bits == 32 and signed else 4]))
        if bits == 64:
            out.append(Enum("Shifted" + t, r, [("Bit31", "1 << 31"), ("Bit40", "1 << 40"), ("After", None), ("Bit62", "1 << 62")]))
    return out


def enum_sequences(repr_, n, values):
    """Every enum of n variants, each with an implicit discriminant or one of the given ones."""
    for ds in itertools.product([None] + list(values), repeat=n):
        got, next_ = [], 0
        for d in ds:
            got.append(next_ if d is None else d)
            next_ = got[-1] + 1
        if len(set(got)) == n:
            name = "Seq%s%s" % (repr_.lower(), "".join("n" if d is None else "m%d" % -d if d < 0 else "v%d" % d for d in ds))
            yield Enum(name, repr_, [("V" + "abcde"[i], None if d is None else str(d)) for i, d in enumerate(ds)])


def wide_enum(e):
    return e.backing.size == 8 or e.name in ("ExtremeU32", "LiteralU32") or e.repr in ("u32",)


def chunk(name, types, n=12, **kw):
    types = list(types)
    return [Batch("%s_%d" % (name, i // n), types[i:i + n], **kw) for i in range(0, len(types), n)]


def fn_calls(fns):
    """For function pointers: Rust calls C's function, C calls Rust's, every argument and result compared."""
    rust, c, main = [], [], []
    for i, f in enumerate(fns):
        names = ["a%d" % j for j in range(len(f.args))]
        checks = "".join(" if eat_%s(%s, %d) != 0 { unsafe { BAD = %d } }" % (a.key, n, 11 + j, 1 + j) for j, (a, n) in enumerate(zip(f.args, names)))
        void = isinstance(f.ret, Void)
        ret = "" if void else " -> " + f.ret.rust
        rust.append("extern \"C\" fn cb_%d(%s)%s { unsafe { CALLS += 1 }%s %s }" % (i, ", ".join("%s: %s" % (n, a.rust) for n, a in zip(names, f.args)), ret, checks, "" if void else "mk_%s(77)" % f.ret.key))
        rust.append("#[ffi_export] pub fn get_%d() -> %s { cb_%d }" % (i, f.rust, i))
        args = ", ".join("mk_%s(%d)" % (a.key, 11 + j) for j, a in enumerate(f.args))
        rust.append("#[ffi_export] pub fn call_%d(f: %s) -> u32 { let r = f(%s); %s }" % (i, f.rust, args, "0" if void else "eat_%s(r, 77)" % f.ret.key))
        def cval(t, var, seed):
            from c13 import value
            return " ".join("%s%s = %s;" % (var, l.cpath, value(l, "OF(%s%s)" % (var, l.cpath), str(seed), j)) for j, l in enumerate(t.leaves()))
        def cchk(t, var, seed, what):
            from c13 import value
            return " ".join('CHECK(%s%s == %s, "%s");' % (var, l.cpath, value(l, "OF(%s%s)" % (var, l.cpath), str(seed), j), what) for j, l in enumerate(t.leaves()))
        sig = ", ".join(a.c(n) for n, a in zip(names, f.args)) or "void"
        body = "calls++; " + " ".join(cchk(a, n, 11 + j, "argument %d of callback %d" % (j, i)) for j, (n, a) in enumerate(zip(names, f.args)))
        if not void:
            body += " t_%s r; %s return r;" % (f.ret.key, cval(f.ret, "r", 77))
        c.append("%s { %s }" % (f.ret.c("ccb_%d(%s)" % (i, sig)).join(["static ", ""]), body))
        args = " ".join("t_%s %s; %s" % (a.key, n, cval(a, n, 11 + j)) for j, (n, a) in enumerate(zip(names, f.args)))
        m = "{ cases++; %s %s f = get_%d(); %s f(%s); %s }" % (
            args, "OF(get_%d())" % i, i, "" if void else "t_%s r =" % f.ret.key, ", ".join(names), "" if void else cchk(f.ret, "r", 77, "result of Rust's function %d" % i))
        m += ' CHECK(vp_calls() == %d, "Rust function %d not called"); CHECK(vp_bad() == 0, "arguments of Rust\'s function %d");' % (i + 1, i, i)
        m += ' { uint32_t r = call_%d(ccb_%d); CHECK(r == 0, "result of callback %d"); CHECK(calls == %d, "callback %d not called"); }' % (i, i, i, i + 1, i)
        main.append("  " + m)
    rust.insert(0, "static mut BAD: u32 = 0; static mut CALLS: u32 = 0;\n#[ffi_export] pub fn vp_bad() -> u32 { unsafe { BAD } }\n#[ffi_export] pub fn vp_calls() -> u32 { unsafe { CALLS } }")
    c.insert(0, "static uint32_t calls;")
    return "\n".join(rust), "\n".join(c), "\n".join(main)


CONSTRUCTORS = [
    # letter, what it makes, the C name it gets from its parameter's name (None: a fresh one)
    ("c", lambda t, n: Ptr(CONST, t), "%s_const_ptr"), ("m", lambda t, n: Ptr(MUT, t), "%s_ptr"), ("o", lambda t, n: Ptr("Option<repr_c::Box<{}>>", t), "%s_ptr"),
    ("a", lambda t, n: Arr(t, 2), "%s_2_array"), ("s", lambda t, n: slice_("Ref", t), "slice_ref_%s"), ("v", lambda t, n: vec(t), "Vec_%s"),
    ("t", lambda t, n: tuple_(P["u8"], t), "Tuple2_uint8_%s"), ("g", lambda t, n: tagged(t), "TaggedOption_%s"),
    ("S", lambda t, n: Struct("N_" + n, [("tag", P["u8"]), ("it", t)]), None), ("T", lambda t, n: Transparent("W_" + n, t), "%s"),
    ("R", lambda t, n: None if isinstance(t, Fn) else Transparent("A_" + n, t, rename="alias_" + n), None),
    ("f", lambda t, n: Fn(t, [P["u8"]]), "%s_uint8_fptr"), ("F", lambda t, n: Fn(VOID, [P["u8"], t]), "void_uint8_%s_fptr"),
    ("b", lambda t, n: closure("Box", VOID, [t]), "BoxDynFnMut1_void_%s")]


def nested(depth, bases):
    """[(type, {C name: type})] of every type built from a base by `depth` constructors."""
    out = []
    for word in itertools.product(CONSTRUCTORS, repeat=depth):
        for bn, t in bases:
            n, cname, names = bn, bn, {}
            for k, f, fmt in word:
                n = k + n
                if k in "STR" and isinstance(t, Ptr) and t.rust.endswith(")"):
                    break  # #[derive_ReprC] cannot parse a raw pointer to an `fn(…)` without result as a field
                t = f(t, n)
                if t is None:
                    break
                cname = fmt % cname if fmt else n
                if fmt != "%s":
                    names[cname] = t.key
            else:
                out.append((t, names))
    return out


def nested_batches(name, types, n, **kw):
    """In batches without two types of one C name: nesting a container in an array, or an array in a container, is
    spelled alike (that is C14's concern)."""
    out = []
    for t, names in types:
        for ts, used in out:
            if len(ts) < n and all(used.get(k, v) == v for k, v in names.items()):
                break
        else:
            ts, used = [], {}
            out.append((ts, used))
        ts.append(t)
        used.update(names)
    return [Batch("%s_%d" % (name, i), ts, **kw) for i, (ts, _) in enumerate(out)]


def consts():
    """(Rust items, C static assertions, C main, [(name, kind, Rust type, value)])."""
    rng = dict(u8=(0, 255), u16=(0, 2**16 - 1), u32=(0, 2**32 - 1), u64=(0, 2**64 - 1), usize=(0, 2**64 - 1), i8=(-128, 127), i16=(-2**15, 2**15 - 1),
               i32=(-2**31, 2**31 - 1), i64=(-2**63, 2**63 - 1), isize=(-2**63, 2**63 - 1))
    rust, st, main, names = [], [], [], []
    for ty, (lo, hi) in rng.items():
        for i, v in enumerate(sorted({lo, lo + 1, 0, 1, 42, hi - 1, hi})):
            for untyped in (False, True):
                n = "%s_%s_%d" % ("RAW" if untyped else "K", ty.upper(), i)
                names.append((n, "untyped" if untyped else "typed", ty, v))
                rust.append("#[ffi_export%s] pub const %s: %s = %s;" % ("(untyped)" if untyped else "", n, ty, v if v != -2**63 else "%s::MIN" % ty))
                lit = ("%dull" % (v % 2**64)) if P[ty].size == 8 else "%dll" % v
                if not untyped:
                    st.append("typedef OF(%s) ty_%s; SAME(ty_%s, %s, \"type of %s\"); SASSERT(%s == (%s)%s, \"value of %s\");" % (n, n, n, P[ty].c(), n, n, P[ty].c(), lit, n))
                else:
                    st.append("SASSERT((%s)%s == (%s)%s, \"value of %s\");" % (P[ty].c(), n, P[ty].c(), lit, n))
    for i, v in enumerate(("true", "false")):
        for untyped in (False, True):
            n = "%s_BOOL_%d" % ("RAW" if untyped else "K", i)
            names.append((n, "untyped" if untyped else "typed", "bool", v))
            rust.append("#[ffi_export%s] pub const %s: bool = %s;" % ("(untyped)" if untyped else "", n, v))
            st.append("SASSERT(%s == %d, \"value of %s\"); SASSERT(sizeof(%s) %s, \"size of %s\");" % (n, v == "true", n, n, "> 0" if untyped else "== 1", n))
    for ty, vs in (("f32", ["0.0", "1.0", "-2.5", "0.1", "16777216.0", "3.4028235e38", "1e-45", "1.17549435e-38"]), ("f64", ["0.0", "1.0", "-2.5", "0.1", "1e300", "1.7976931348623157e308", "5e-324", "9007199254740993.0", "1e16"])):
        for i, v in enumerate(vs):
            for untyped in (False, True):
                n = "%s_%s_%d" % ("RAW" if untyped else "K", ty.upper(), i)
                names.append((n, "untyped" if untyped else "typed", ty, v))
                rust.append("#[ffi_export%s] pub const %s: %s = %s;" % ("(untyped)" if untyped else "", n, ty, v))
                main.append("CHECK((%s)%s == %s%s, \"value of %s\");" % (P[ty].c(), n, v, "f" if ty == "f32" else "", n))
                if not untyped:
                    st.append("typedef OF(%s) ty_%s; SAME(ty_%s, %s, \"type of %s\");" % (n, n, n, P[ty].c(), n))
    for i, v in enumerate(["", "plain", "with \\\"quotes\\\"", "tab\\t newline\\n back\\\\slash", "it's", "a/b%d", "no, // comment /* */", "d\u00e9j\u00e0"]):
        n = "RAW_STR_%d" % i
        names.append((n, "untyped", "str", v))
        rust.append('#[ffi_export(untyped)] pub const %s: &str = "%s";' % (n, v))
        main.append('CHECK(sizeof(%s) == sizeof("%s") && memcmp(%s, "%s", sizeof(%s)) == 0, "value of %s");' % (n, v, n, v, n, n))
    return "\n".join(rust), "\n".join(st), "cases++; " + "\n  ".join(main), names


# Constants whose Debug form is no literal of the other language: (key, Rust item, name, C condition on the macro).
ODD_CONSTS = [
    ("constant of an enum type", "#[ffi_export] pub const ODD_ENUM: SmallEnum = SmallEnum::Second;", "ODD_ENUM", "ODD_ENUM == 9"),
    ("infinite float constant", "#[ffi_export] pub const ODD_INF: f64 = f64::INFINITY;", "ODD_INF", "ODD_INF > 1e308"),
    ("infinite negative float constant", "#[ffi_export] pub const ODD_NINF: f32 = f32::NEG_INFINITY;", "ODD_NINF", "ODD_NINF < -1e38"),
    ("NaN constant", "#[ffi_export] pub const ODD_NAN: f64 = f64::NAN;", "ODD_NAN", "ODD_NAN != ODD_NAN"),
    ("string constant with a control character", '#[ffi_export(untyped)] pub const ODD_STR: &str = "a\\x1b[0m";', "ODD_STR", 'sizeof(ODD_STR) == 6 && memcmp(ODD_STR, "a\\033[0m", 6) == 0'),
    ("string constant with a NUL before a digit", '#[ffi_export(untyped)] pub const ODD_NUL: &str = "a\\x001";', "ODD_NUL", "sizeof(ODD_NUL) == 4"),
    ("string constant with a trigraph", '#[ffi_export(untyped)] pub const ODD_TRI: &str = "what??!";', "ODD_TRI", "sizeof(ODD_TRI) == 8 && ODD_TRI[4] == '?'"),
]


def functions():
    """Exported functions of every arity, renamed, without results: called from C with distinct values."""
    rust = ["static mut SEEN: u64 = 0;\n#[ffi_export] pub fn vp_seen() -> u64 { unsafe { SEEN } }", "pub mod inner { use super::*; #[ffi_export] pub fn in_a_module(x: u8) -> u8 { x + 1 } }"]
    st, main = [], []
    kinds = [P[n] for n in "u8 i64 f32 bool u16 f64 i8 u32 usize i16 u64 i32".split()]
    lit = {"bool": lambda i: "1", "f": lambda i: "%d.5" % (i + 3), "u": lambda i: str(20 + i), "i": lambda i: str(-20 - i)}
    fns = []
    for n in range(0, 13):
        for rot in ((0, 5) if n else (0,)):
            ps = [kinds[(rot + i) % 12] for i in range(n)]
            for renamed in (False, True):
                name = "fun_%d_%d" % (n, rot) + ("_old" if renamed else "")
                cname = "new_name_%d_%d" % (n, rot) if renamed else name
                pars = ["par_%s_%d" % (p.name, i) for i, p in enumerate(ps)]
                conds = " && ".join("%s == %s" % (x, "true" if p.kind == "bool" else lit[p.kind](i)) for i, (p, x) in enumerate(zip(ps, pars))) or "true"
                ret = kinds[(n + rot) % 12] if rot or n % 2 else None
                rv = "true" if ret and ret.kind == "bool" else lit[ret.kind](n) if ret else ""
                rust.append("#[ffi_export%s] pub fn %s(%s)%s { unsafe { SEEN += if %s { 1 } else { 1000 } } %s }" % (
                    '(rename = "%s")' % cname if renamed else "", name, ", ".join("%s: %s" % (x, p.rust) for x, p in zip(pars, ps)), " -> " + ret.rust if ret else "", conds, rv))
                fns.append((cname, [(x, p) for x, p in zip(pars, ps)], ret or VOID))
                call = "%s(%s)" % (cname, ", ".join(lit[p.kind](i) for i, p in enumerate(ps)))
                if ret:
                    main.append("{ cases++; OF(%s) r = %s; CHECK(r == %s, \"result of %s\"); }" % (call, call, lit[ret.kind](n), cname))
                else:
                    main.append("cases++; %s;" % call)
                main.append("CHECK(vp_seen() == %d, \"arguments of %s\");" % (len(fns), cname))
                decl = "(*q_%s)(%s)" % (cname, ", ".join(p.c() for p in ps) or "void")
                st.append("static %s = %s;" % ((ret or VOID).c(decl), cname))
                main.append("(void)q_%s;" % cname)
    main.append('CHECK(in_a_module(4) == 5, "a function within a module");')
    fns.append(("in_a_module", [("x", P["u8"])], P["u8"]))
    return "\n".join(rust), "\n".join(st), "\n  ".join(main), fns


VIRTUAL = r"""
#[derive_ReprC(dyn)] pub trait Shape { fn area(&self, k: u32) -> u64; fn grow(&mut self, by: u8, more: Pair); fn name(&self) -> i16; fn last(&self, a: u8, b: u64, c: f64, d: bool) -> Pair; }
pub struct Sq(u32);
static mut DROPS: u32 = 0;
impl Drop for Sq { fn drop(&mut self) { unsafe { DROPS += 1 } } }
impl Shape for Sq {
    fn area(&self, k: u32) -> u64 { (self.0 * k) as u64 }
    fn grow(&mut self, by: u8, more: Pair) { self.0 += by as u32 + more.second * more.first as u32 }
    fn name(&self) -> i16 { -3 }
    fn last(&self, a: u8, b: u64, c: f64, d: bool) -> Pair { Pair { first: a + d as u8, second: b as u32 + c as u32 } }
}
#[derive_ReprC(dyn, Clone)] pub trait Tag : Send + Sync { fn tag(&self) -> u8; }
#[derive(Clone)] pub struct T(u8);
impl Tag for T { fn tag(&self) -> u8 { self.0 } }
impl Drop for T { fn drop(&mut self) { unsafe { DROPS += 1 } } }
#[ffi_export] pub fn drops() -> u32 { unsafe { DROPS } }
#[ffi_export] pub fn new_shape(n: u32) -> VirtualPtr<dyn Shape> { Box::new(Sq(n)).into() }
#[ffi_export] pub fn free_shape(s: VirtualPtr<dyn Shape>) {}
#[ffi_export] pub fn shape_area(s: &VirtualPtr<dyn Shape>, k: u32) -> u64 { s.area(k) }
#[ffi_export] pub fn new_tag(n: u8) -> VirtualPtr<dyn 'static + Tag> { Box::new(T(n)).into() }
#[ffi_export] pub fn rc_tag(n: u8) -> VirtualPtr<dyn 'static + Tag> { ::std::rc::Rc::new(T(n)).into() }
#[ffi_export] pub fn free_tag(s: VirtualPtr<dyn 'static + Tag>) {}
fn more_facts(out: &mut Vec<String>) {
    out.push(format!("K Shape {} {}", size_of::<VirtualPtr<dyn Shape>>(), align_of::<VirtualPtr<dyn Shape>>()));
    out.push(format!("K Tag {} {}", size_of::<VirtualPtr<dyn 'static + Tag>>(), align_of::<VirtualPtr<dyn 'static + Tag>>()));
}
"""
VIRTUAL_MAIN = r"""
  { OF(new_shape(0)) s = new_shape(5); cases++;
    CHECK(s.vtable.area(s.ptr, 7) == 35, "virtual area"); OF(mk_Pair(0)) p; p.first = 2; p.second = 10; s.vtable.grow(s.ptr, 3, p);
    CHECK(shape_area(&s, 2) == 56, "virtual grow"); CHECK(s.vtable.name(s.ptr) == -3, "virtual name");
    p = s.vtable.last(s.ptr, 9, 1000, 5.5, 1); CHECK(p.first == 10 && p.second == 1005, "virtual last");
    CHECK(drops() == 0, "dropped early"); s.vtable.release_vptr(s.ptr); CHECK(drops() == 1, "released"); free_shape(new_shape(1)); CHECK(drops() == 2, "freed"); }
  { OF(new_tag(0)) t = new_tag(7); cases++; CHECK(t.vtable.tag(t.ptr) == 7, "tag"); OF(new_tag(0)) u = t; u.ptr = t.vtable.retain_vptr(t.ptr);
    CHECK(u.ptr != t.ptr, "cloned"); t.vtable.release_vptr(t.ptr); CHECK(drops() == 3, "first gone"); CHECK(u.vtable.tag(u.ptr) == 7, "clone lives"); free_tag(u); CHECK(drops() == 4, "both gone"); }
  { OF(new_tag(0)) t = rc_tag(9); cases++; OF(new_tag(0)) u = t; u.ptr = t.vtable.retain_vptr(t.ptr); CHECK(u.ptr == t.ptr, "shared"); t.vtable.release_vptr(t.ptr);
    CHECK(drops() == 4, "still shared"); CHECK(u.vtable.tag(u.ptr) == 9, "shared tag"); u.vtable.release_vptr(u.ptr); CHECK(drops() == 5, "gone"); }
"""
ASYNC = r"""::safer_ffi::ffi_export_future_helpers!();
use ::safer_ffi::dyn_traits::futures::{FfiFuture, FfiFutureExecutor};
#[ffi_export] pub fn with_future(f: VirtualPtr<dyn 'static + Send + FfiFuture>, e: VirtualPtr<dyn 'static + Send + Sync + FfiFutureExecutor>) {}
"""


def virtual_static(facts):
    return "\n".join('SASSERT(sizeof(%s(0)) == %s, "size of virtual %s"); SASSERT(ALIGNOF(OF(%s(0))) == %s, "alignment");' % (f, facts["K"][k][0], k, f, facts["K"][k][1]) for f, k in (("new_shape", "Shape"), ("new_tag", "Tag")))


def batches(tier):
    deep = tier == "thorough"
    out = []
    out.append(Batch("prims", NUM))
    es = enums()
    out += chunk("enums", [e for e in es if not wide_enum(e)], 24)
    out += chunk("wide_enums", [e for e in es if wide_enum(e)], 24, wide=True)
    seq = [e for n in (1, 2, 3) for e in enum_sequences("i8", n, (-2, 0, 1, 2, 7))]
    if deep:
        seq += [e for n in (1, 2, 3) for r, vs in (("u16", (0, 1, 2, 3, 200)), ("C", (-1, 0, 1, 2, 3))) for e in enum_sequences(r, n, vs)] + list(enum_sequences("i16", 4, (0, 1, 2, 3)))
    out += chunk("enum_seq", seq, 100)
    # arrays
    out.append(Batch("arrays_0", [Arr(t, 3) for t in NUM]))
    lens = list(range(1, 33)) + [40, 48, 50, 60, 64, 70, 75, 80, 90, 96, 100, 125, 128, 192, 200, 250, 256, 300, 400, 500, 512, 600, 700, 750, 800, 900, 1000, 1024]
    out += chunk("arrays_len", [Arr(P["u8"], n) for n in (lens if deep else [1, 2, 4, 5, 31, 32, 40, 100, 256, 1024])], 30)
    out.append(Batch("arrays_of", [Arr(Arr(P["i8"], 2), 3), Arr(Arr(Arr(P["u16"], 2), 2), 2), Arr(PAIR, 2), Arr(E8, 5), Arr(EC, 2), Arr(Ptr(CONST, P["u8"]), 2),
                                   Arr(Ptr(MUT, PAIR), 2), Arr(CB, 2), Arr(P["bool"], 4), Arr(slice_("Ref", P["u8"]), 2), Arr(tuple_(P["u8"], P["u64"]), 3)]))
    # structs: every ordered pair and triple of kinds of fields
    kinds = [P["u8"], P["u16"], P["u32"], P["u64"], P["f32"], P["f64"], P["bool"], Ptr(CONST, P["u8"]), E8, E64, Arr(P["u8"], 3), CB, PAIR]
    pairs = [Struct("S%d_%d" % (i, j), [("a", x), ("b", y)]) for i, x in enumerate(kinds) for j, y in enumerate(kinds)]
    out += chunk("pairs", pairs, 22)
    sized = [P["u8"], P["i16"], P["i32"], P["u64"]] + ([P["f32"], P["f64"], FLT, P["bool"]] if deep else [])
    triples = [Struct("T%d%d%d" % (i, j, k), [("a", sized[i]), ("b", sized[j]), ("c", sized[k])]) for i, j, k in itertools.product(range(len(sized)), repeat=3)]
    out += chunk("triples", triples, 32)
    if deep:
        q = [P["u8"], P["u16"], P["u64"]]
        out += chunk("quads", [Struct("Q" + "".join(map(str, c)), [("f%d" % i, q[x]) for i, x in enumerate(c)]) for c in itertools.product(range(3), repeat=4)], 27)
        out += chunk("numpairs", [Struct("N%d_%d" % (i, j), [("a", x), ("b", y)]) for i, x in enumerate(NUM) for j, y in enumerate(NUM)], 28)
    # shapes of structs
    out.append(Batch("shapes", [
        PAIR, FLT, BIG, Struct("One", [("only", P["u16"])]),
        Struct("Nested", [("p", PAIR), ("q", BIG), ("r", FLT)]),
        Struct("Deep", [("n", Struct("Nested2", [("p", PAIR), ("e", E8)])), ("arr", Arr(Struct("Inner3", [("x", P["u8"]), ("y", P["u16"])]), 3))]),
        Struct("Renamed", [("p", P["u8"]), ("q", P["i64"])], rename="another_name"),
        Struct("WithZst", [("a", P["u8"]), ("b", P["u32"])], zsts=[(0, "()"), (2, "::core::marker::PhantomData<u64>")]),
        Struct("ZstFirst", [("a", P["u64"])], zsts=[(0, "::core::marker::PhantomData<u8>")]),
        Struct("Gen", [("a", P["u8"]), ("t", P["u32"])], generics=(["T"], [P["u32"]], {"t": "T"})),
        Struct("Gen", [("a", P["u8"]), ("t", PAIR)], generics=(["T"], [PAIR], {"t": "T"})),
        Struct("Gen2", [("x", P["u8"]), ("y", P["f64"])], generics=(["T", "U"], [P["u8"], P["f64"]], {"x": "T", "y": "U"})),
        Struct("Gen2", [("x", P["f64"]), ("y", P["u8"])], generics=(["T", "U"], [P["f64"], P["u8"]], {"x": "T", "y": "U"})),
        Struct("Keywords", [("len", P["u8"]), ("ptr", P["u16"]), ("data_1", P["u32"]), ("_x", P["u8"])]),
        Struct("CamelCase9Name", [("someField", P["u8"]), ("Other", P["u16"])]),
        Struct("Many", [("f%02d" % i, NUM[i % len(NUM)]) for i in range(30)]),
        Struct("WithPtrs", [("a", Ptr(MUT, PAIR)), ("b", Ptr(CONST, OPQ)), ("c", Ptr(CONST, Ptr(MUT, P["u8"]))), ("d", CB), ("e", Fn(VOID, [])), ("f", Ptr(MUT, VOID))]),
        Struct("WithLib", [("s", slice_("Ref", P["u8"])), ("v", vec(PAIR)), ("c", CharP("Raw")), ("t", tuple_(P["u8"], P["u32"])), ("g", tagged(P["u16"]))]),
    ]))
    out.append(Batch("transparent", [
        Transparent("Wrap", P["u16"]), Transparent("WrapB", P["bool"]), Transparent("WrapR", P["u32"], rename="my_int"), Transparent("WrapBR", P["bool"], rename="my_bool"),
        Transparent("WrapS", PAIR), Transparent("WrapSR", PAIR, rename="my_pair"), Transparent("WrapZ", P["i64"], zst="()"), Transparent("WrapZR", P["f32"], rename="my_float", zst="::core::marker::PhantomData<u8>"),
        Transparent("WrapP", Ptr(MUT, PAIR)), Transparent("WrapPR", Ptr(CONST, P["u8"]), rename="my_ptr"), Transparent("WrapE", E8), Transparent("WrapER", E8, rename="my_enum"),
        Transparent("WrapA", Arr(P["u8"], 4)), Transparent("WrapAR", Arr(P["u16"], 4), rename="my_array"), Transparent("WrapF", CB),
        Transparent("WrapW", Transparent("WrapR2", P["u8"], rename="inner_int"), rename="outer_int"),
        Transparent("WrapFZ", CB, zst="()"), Transparent("WrapFR", CB, rename="my_callback", zst="()"), Transparent("WrapPF", Ptr(CONST, CB), rename="my_callbacks"),
        Struct("HoldsWraps", [("a", Transparent("WrapBR2", P["bool"], rename="my_bool2")), ("b", Transparent("WrapI2", P["u16"], rename="my_int2")), ("c", Transparent("WrapX", P["u8"]))]),
    ]))
    # pointers
    tos = [P["u8"], P["f64"], P["bool"], PAIR, E8, EC, Arr(P["u16"], 3), Ptr(MUT, P["u8"]), CB, Fn(VOID, [])]
    forms = [CONST, MUT, "&'static {}", "&'static mut {}", "Option<&'static {}>", "Option<&'static mut {}>", "::core::ptr::NonNull<{}>", "Option<::core::ptr::NonNull<{}>>",
             "repr_c::Box<{}>", "Option<repr_c::Box<{}>>", "safer_ffi::ptr::NonNullRef<{}>", "safer_ffi::ptr::NonNullMut<{}>", "safer_ffi::ptr::NonNullOwned<{}>", "Out<'static, {}>"]
    ptrs = [Ptr(f, t) for f in forms for t in tos]
    ptrs += [Ptr(f, OPQ) for f in forms if "Out" not in f] + [Ptr(f, OPQ_R) for f in (CONST, "&'static mut {}", "repr_c::Box<{}>")]
    ptrs += [Ptr(CONST, VOID), Ptr(MUT, VOID), Ptr(CONST, Ptr(CONST, Ptr(CONST, P["u8"]))), Ptr(MUT, Ptr(CONST, OPQ)), Ptr("&'static {}", Ptr("&'static {}", PAIR)),
             Ptr(MUT, Ptr(CONST, CB)), Ptr("&'static {}", slice_("Ref", P["u8"])), Ptr(MUT, vec(P["u8"])), Ptr(CONST, Arr(CB, 2))]
    out += chunk("pointers", ptrs, 25)
    names = [("String", "String"), ("VecU8", "Vec<u8>"), ("ArcU8", "::std::sync::Arc<u8>"), ("RcU8", "::std::rc::Rc<u8>"), ("Map", "::std::collections::BTreeMap<u8, Vec<u16>>"),
             ("MapT", "::std::collections::BTreeMap<(u8, u16), u32>"), ("VecV", "Vec<Vec<Vec<u8>>>"),
             ("VecT", "Vec<(u8, Vec<(u16, u32)>)>"), ("VecM", "Vec<::std::collections::BTreeMap<u8, u16>>"), ("VecA", "Vec<[u8; 4]>"), ("VecA2", "Vec<[(u8, u8); 4]>"),
             ("VecA3", "Vec<[u8; 5]>"), ("VecD", "Vec<Box<dyn ::std::fmt::Debug>>"), ("Mutex", "::std::sync::Mutex<u8>"), ("Cell", "::std::cell::RefCell<u8>"),
             ("HashMap", "::std::collections::HashMap<u8, u16>"), ("RwLock", "::std::sync::RwLock<Vec<u8>>"), ("Str", "&'static str"), ("Slice", "&'static [u8]"), ("SliceT", "&'static [(u8, u16)]")]
    boxed = [Ptr("repr_c::Box<{}>", Opaque(n, rust=r, cname="TYP(mk_repr_c_Box__%s)" % n)) for n, r in names]
    distinct = "\n".join("DIFF(TYP(mk_%s), TYP(mk_%s), \"%s and %s are one C type\");" % (x.key, y.key, x.rust.replace('"', ""), y.rust) for x, y in itertools.combinations(boxed, 2))
    out.append(Batch("lib_opaques", boxed + [CharP(w) for w in ("Ref", "Box", "Raw", "OptRef", "OptBox")], c_static=lambda facts: distinct))
    # function pointers
    args = [P["u8"], P["f64"], PAIR, Ptr(CONST, P["u8"]), CB, E8]
    fns = [Fn(r, [a]) for r in [VOID] + args for a in args] + [Fn(r, []) for r in [VOID] + args]
    fns += [Fn(P["u32"], NUM[:n]) for n in range(2, 10)] + [Fn(VOID, [Fn(CB, [CB]), CB]), Fn(Fn(CB, [P["u8"]]), [P["u16"]]), Fn(BIG, [BIG, FLT, PAIR])]
    fns += [Fn(Ptr(MUT, PAIR), [Ptr("&'static {}", PAIR), P["usize"]]), Fn(P["bool"], [P["bool"], P["isize"], P["f32"]])]
    for b in chunk("fns", fns, 20):
        b.rust, st, b.c_main = fn_calls(b.types)
        b.types += [a for f in b.types for a in every(f) if a.pod and not isinstance(a, Void)]
        b.c_static = lambda facts, st=st: st
        out.append(b)
    out.append(Batch("fn_forms", [Fn(P["u8"], [P["u16"]], f) for f in ("{}", "Option<{}>", "Option<unsafe {}>", "unsafe {}")]))
    # containers
    elems = [P["u8"], P["bool"], P["f32"], PAIR, E8, Ptr(CONST, P["u8"]), Arr(P["u16"], 2), CB]
    out += chunk("slices", [slice_(w, e) for w in ("Ref", "Mut", "Box", "Raw") for e in elems] + [slice_("OptRef", P["u8"]), slice_("OptBox", P["u32"])], 17)
    out.append(Batch("vecs", [vec(e) for e in elems] + [STRING, STR_REF, STR_BOX, BYTES_, slice_("Ref", slice_("Ref", P["u8"])), vec(vec(P["u8"])), slice_("Box", OPQ), vec(OPQ)]))
    out.append(Batch("tuples", [tuple_(*NUM[:n]) for n in range(1, 7)] + [tuple_(P["u8"], PAIR), tuple_(P["u64"], P["u8"], E8), tuple_(CB, P["bool"]), tuple_(tuple_(P["u8"], P["u16"]), P["u8"])]))
    tg = [P["u8"], P["u16"], P["u64"], P["bool"], P["f64"], PAIR, BIG, Arr(P["u8"], 3), E8, Ptr(MUT, P["u8"]), tuple_(P["u8"], P["u32"])]
    out.append(Batch("tagged", [tagged(t) for t in tg], full=lambda t: not t.key.startswith("tagged")))
    cargs = [P["u8"], P["i64"], P["f64"], PAIR, Ptr(CONST, P["u8"]), P["bool"], P["u16"], P["u32"], P["usize"]]
    for kind in ("Box", "Arc", "Ref"):
        out.append(Batch("closures_" + kind, [closure(kind, r, cargs[:n]) for n in range(0, 10) for r in (VOID, P["u32"])] + [closure(kind, PAIR, [BIG]), closure(kind, CB, [CB])]))
    bases = [("u8", P["u8"]), ("bool", P["bool"]), ("pair", PAIR), ("en", E8), ("cb", CB), ("f32", P["f32"])]
    out += nested_batches("nested1", nested(1, bases), 28)
    out += nested_batches("nested2", nested(2, bases if deep else bases[:3:2]), 40, full=lambda t: not t.key.startswith(("tagged", "fn", "arr")))
    if deep:
        out += nested_batches("nested3", nested(3, [bases[0], bases[3]]), 56, full=lambda t: not t.key.startswith(("tagged", "fn", "arr")))
    rust, st, main, names = consts()
    b = Batch("consts", [P["u8"]], rust, lambda facts, st=st: st, main, wide=True)
    b.consts = names
    out.append(b)
    rust, st, main, fns = functions()
    b = Batch("functions", [P["u8"]], rust, lambda facts, st=st: st, main)
    b.fns = fns
    out.append(b)
    out.append(Batch("virtual", [PAIR], VIRTUAL, virtual_static, VIRTUAL_MAIN))
    out.append(Batch("async", [P["u8"]], ASYNC))
    return out


BYTES_ = Lib("bytes", "safer_ffi::bytes::Bytes<'static>", [("start", Ptr(CONST, P["u8"])), ("len", P["usize"]), ("owner", Ptr(CONST, VOID)), ("capacity", P["usize"]), ("vtable", Ptr(MUT, P["u8"]))])
