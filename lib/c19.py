"""C19: what the generated headers do with every sequence of documentation attributes, on every kind of item.

For every position a doc comment can be in, and every sequence of attributes up to a length, the same program is also
generated with no docs at all. Oracle: without its comments, the header is token for token that of the undocumented
program; and the text in front of each name (of C and C# headers) is what the sequence of attributes says, which is
worked out here from the literals alone."""
import html
import itertools
import json
import os
import re
import shutil
import subprocess

import driver
import sf

NEWLINES = "\n\r\x85\u2028\u2029"


class Attr:
    """An attribute: its source, and the text it adds to the docs (None: none). {T}: a word of its own."""

    def __init__(self, name, src, text):
        self.name, self.src, self.text = name, src, text


ALPHABET = [
    Attr("line", "/// Word {T}.", " Word {T}."),
    Attr("empty line", "///", ""),
    Attr("close", '#[doc = "a/**/b {T} */ int {T}x; /* */"]', "a/**/b {T} */ int {T}x; /* */"),
    Attr("block", "/** Block {T}\n     * with a second {T}y\n\n     - and a third line */", " Block {T}\n     * with a second {T}y\n\n     - and a third line "),
    Attr("hidden", "#[doc(hidden)]", None),
    Attr("code", "/// `{T}` is ``x`y`` and ```{T}z```, `x`", " `{T}` is ``x`y`` and ```{T}z```, `x`"),
    Attr("indented", "///     {T} % {{}} {{0}} \\ \"quoted\" 'c' %s \\n \\", "     {T} % {{}} {{0}} \\ \"quoted\" 'c' %s \\n \\"),
    Attr("concat", '#[doc = concat!("{T}", "x")]', "{T}x"),
    Attr("one-line block", "/** {T} /* nested */ end */", " {T} /* nested */ end "),
    Attr("newlines", '#[doc = "{T}\\n\\n{T}b\\r\\n{T}c\\u{{85}}{T}d\\u{{2028}}{T}e\\u{{2029}}int {T}f;"]', "{T}\n\n{T}b\r\n{T}c\x85{T}d\u2028{T}e\u2029int {T}f;"),
    Attr("empty doc", '#[doc = ""]', ""),
    Attr("raw", '#[doc = r#"{T} "\\" # {T}r"#]', '{T} "\\" # {T}r'),
    Attr("markup", "/// <b>{T}</b> &lt; & Vec<{T}v> // {T}w", " <b>{T}</b> &lt; & Vec<{T}v> // {T}w"),
    Attr("slash", "/// /", " /"),
    Attr("star", "/// *", " *"),
    Attr("directive", "/// #include {T}", " #include {T}"),
    Attr("unicode", "/// {T} é → 文 \U0001f980", " {T} é → 文 \U0001f980"),
    Attr("allow", "#[allow(dead_code)]", None),
    Attr("alias", '#[doc(alias = "{T}al")]', None),
]
BY = {a.name: a for a in ALPHABET}


# Positions: (name, code with {D} where the docs go and {N} for a number, {language: name in the header, or None}).
def both(x):
    return {"C": x, "CSharp": x}


POSITIONS = [
    ("fn", "{D} #[ffi_export] pub fn f{N}(x: u8) -> u8 {{ x }}", both("f{N}"), True),
    ("fn, docs last", "#[ffi_export]\n{D} pub fn f{N}(x: &u8, y: bool) {{ }}", both("f{N}"), True),
    ("renamed fn", "{D} #[ffi_export(rename = \"r{N}\")] pub fn f{N}() {{ }}", both("r{N}"), True),
    ("async fn", "{D} #[ffi_export(executor = ex::block_on)] pub async fn f{N}(x: u8) -> u8 {{ ffi_await!(async move {{ x }}) }}", both("f{N}"), True),
    ("const", "{D} #[ffi_export] pub const K{N}: u16 = {N};", both("K{N}"), True),
    ("untyped const", "#[ffi_export(untyped)]\n{D} pub const K{N}: u32 = {N};", {"C": "K{N}"}, True),
    ("struct", "{D} #[ffi_export] #[derive_ReprC] #[repr(C)] pub struct S{N} {{ pub a{N}: u8 }}", {"C": "S{N}", "CSharp": "S{N}_t"}, True),
    ("field", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct S{N} {{ pub a{N}: u8, {D} pub b{N}: *const u16, pub c{N}: [u8; 2] }}", both("b{N}"), False),
    ("first field", "/// Outer.\n#[derive_ReprC] #[repr(C)] pub struct S{N} {{ {D} pub a{N}: u8, pub b{N}: u16 }} #[ffi_export] pub fn f{N}(x: S{N}) {{ }}", both("a{N}"), False),
    ("last field", "#[derive_ReprC] #[repr(C)] pub struct S{N} {{ pub a{N}: u8, {D} pub b{N}: Option<unsafe extern \"C\" fn(u8)> }} #[ffi_export] pub fn f{N}() -> S{N} {{ loop {{ }} }}", both("b{N}"), False),
    ("generic struct", "{D} #[derive_ReprC] #[repr(C)] pub struct G{N}<T> {{ pub t{N}: T }} #[ffi_export] pub fn f{N}(x: G{N}<u8>, y: G{N}<u16>) {{ }}", {"C": ["G{N}_uint8", "G{N}_uint16"], "CSharp": ["G{N}_uint8_t", "G{N}_uint16_t"]}, True),
    ("opaque", "{D} #[derive_ReprC] #[repr(opaque)] pub struct O{N} {{ pub x: u8 }} #[ffi_export] pub fn f{N}(x: &O{N}) {{ }}", {"C": "O{N}", "CSharp": "O{N}_t"}, True),
    ("exported opaque", "#[ffi_export]\n{D} #[derive_ReprC] #[repr(opaque)] pub struct O{N} {{ /// Not in headers.\n pub x: u8 }}", {"C": "O{N}", "CSharp": "O{N}_t"}, True),
    ("alias", "{D} #[derive_ReprC(rename = \"al{N}\")] #[repr(transparent)] pub struct A{N}(u8); #[ffi_export] pub fn f{N}(x: A{N}) {{ }}", {"C": "al{N}_t"}, True),
    ("alias with a marker", "#[derive_ReprC(rename = \"al{N}\")]\n{D} #[repr(transparent)] pub struct A{N} {{ x: u16, _p: ::core::marker::PhantomData<u64> }} #[ffi_export] pub fn f{N}(x: A{N}) {{ }}", {"C": "al{N}_t"}, True),
    ("enum", "{D} #[ffi_export] #[derive_ReprC] #[repr(u8)] pub enum E{N} {{ VA{N}, VB{N} = 5 }}", {"C": "E{N}", "CSharp": "E{N}_t"}, True),
    ("C enum", "#[derive_ReprC]\n{D} #[repr(C)] pub enum E{N} {{ VA{N}, VB{N} = -5 }} #[ffi_export] pub fn f{N}() -> E{N} {{ loop {{ }} }}", {"C": "E{N}", "CSharp": "E{N}_t"}, True),
    ("variant", "#[ffi_export] #[derive_ReprC] #[repr(i16)] pub enum E{N} {{ VA{N}, {D} VB{N} = -5, VC{N} }}", {"C": "E{N}_V_B{N}", "CSharp": "VB{N}"}, False),
    ("first variant", "/// Outer.\n#[ffi_export] #[derive_ReprC] #[repr(C)] pub enum E{N} {{ {D} VA{N}, VB{N}, VC{N} }}", {"C": "E{N}_V_A{N}", "CSharp": "VA{N}"}, False),
    ("last variant", "#[ffi_export] #[derive_ReprC] #[repr(u64)] pub enum E{N} {{ VA{N} = 3, VB{N}, {D} VC{N} = 2 }}", {"C": "E{N}_V_C{N}", "CSharp": "VC{N}"}, False),
    ("method", "#[derive_ReprC(dyn)] pub trait T{N} {{ fn m{N}(&self, x: u8); {D} fn n{N}(&mut self) -> bool; fn o{N}(&self); }} #[ffi_export] pub fn f{N}(x: VirtualPtr<dyn T{N}>) {{ }}", both("n{N}"), False),
    ("item of a macro", "macro_rules! mk{N} {{ ($(#[$m:meta])* $f:ident) => {{ $(#[$m])* #[ffi_export] pub fn $f(x: u8) {{ }} }} }} mk{N}! {{ {D} f{N} }}", both("f{N}"), False),
    ("docs of a macro", "macro_rules! mk{N} {{ ($($e:expr),*; $f:ident) => {{ $( #[doc = $e] )* #[ffi_export] #[derive_ReprC] #[repr(C)] pub struct $f {{ $( #[doc = $e] )* pub b{N}: u8 }} }} }} mk{N}! {{ {X}; S{N} }}", {"C": ["S{N}", "b{N}"], "CSharp": ["S{N}_t", "b{N}"]}, False),
]

PRELUDE = r"""#![allow(warnings)]
use ::safer_ffi::{prelude::*, headers::{builder, Language}};
pub mod ex {
    pub fn block_on<F : ::core::future::Future>(_: F) -> F::Output { unimplemented!() }
}
"""
MAIN = r"""
fn main() {
    let dir = ::std::env::args().nth(1).unwrap();
    for (n, l) in [("C", Language::C), ("CSharp", Language::CSharp), ("Python", Language::Python)] {
        builder().with_language(l).with_guard("VP_H").to_file(format!("{dir}/{n}")).unwrap().generate().unwrap();
    }
}
"""


class Item:
    def __init__(self, n, pos, seq):
        self.n, self.pos, self.seq = n, pos, seq
        self.key = "%s: %s" % (pos[0], ", ".join(a.name for a in seq) or "no docs")

    def words(self):
        return ["w%dq%d" % (self.n, i) for i in range(len(self.seq))]

    def code(self, docs):
        d, x = "", ""
        if docs:
            texts = [(a.src.format(T=w), a.text and a.text.format(T=w), a) for a, w in zip(self.seq, self.words())]
            d = "".join("\n" + s for s, _, _ in texts) + "\n"
            x = ", ".join(rust_str(t) for _, t, a in texts if a.text is not None)
        return self.pos[1].replace("{D}", "\x01").replace("{X}", "\x02").format(N=self.n).replace("\x01", d).replace("\x02", x)

    def expected(self):
        """The lines of the docs."""
        out = []
        for a, w in zip(self.seq, self.words()):
            if a.text is not None:
                out += re.split("\r\n|[%s]" % NEWLINES, a.text.format(T=w))
        return tidy(out)

    def names(self, lang):
        x = self.pos[2].get(lang, [])
        return [y.format(N=self.n) for y in ([x] if isinstance(x, str) else x)]


def rust_str(t):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in t) + '"'


def tidy(lines):
    """Modulo indentation, decoration, and blank lines at either end."""
    out = [re.sub(r"\s+", " ", l.strip().lstrip("*").strip()) for l in lines]
    while out and not out[0]:
        out.pop(0)
    while out and not out[-1]:
        out.pop()
    return out


def loose(lines):
    """What docs with the delimiters of comments, or with markup, have to keep: how they escape these is up to them."""
    return [re.sub(r"[\s*/\\\u200b-\u200d`]|&#?\w+;", "", re.sub(r"</?c>", "", html.unescape(html.unescape(l)))) for l in lines]


def c_parts(text):
    """[(is comment, text)] as C sees it."""
    out, i, start = [], 0, 0
    while i < len(text):
        c = text[i]
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                raise Bad("a comment without an end")
            out += [(False, text[start:i]), (True, text[i:j + 2])]
            i = start = j + 2
        elif text.startswith("//", i):
            j = text.find("\n", i)
            j = len(text) if j < 0 else j
            out += [(False, text[start:i]), (True, text[i:j])]
            i = start = j
        elif c in "\"'":
            j = i + 1
            while j < len(text) and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            i = j + 1
        else:
            i += 1
    out.append((False, text[start:]))
    return [(k, t) for k, t in out if t]


def cs_parts(text):
    """The same as C# sees it."""
    out, i, start = [], 0, 0
    while i < len(text):
        if text.startswith("//", i):
            m = re.compile("[%s]" % NEWLINES).search(text, i)
            j = m.start() if m else len(text)
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2) + 2
            if j < 2:
                raise Bad("a comment without an end")
        elif text[i] in "\"'":
            c, j = text[i], i + 1
            while j < len(text) and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            i = j + 1
            continue
        else:
            i += 1
            continue
        out += [(False, text[start:i]), (True, text[i:j])]
        i = start = j
    out.append((False, text[start:]))
    return [(k, t) for k, t in out if t]


class Bad(Exception):
    pass


TOKEN = re.compile(r"\w+|\"(?:\\.|[^\"\\\n])*\"|\S")


def tokens(parts):
    return [t for k, x in parts for t in (TOKEN.findall(x) if not k else [])]


def comment_lines(text, lang):
    if lang == "C":
        body = text[2:-2] if text.startswith("/*") else text[2:]
        lines = [re.sub(r"^\s*\*+(?!/)", "", l, 1) for l in body.split("\n")]
        lines = [re.sub(r"^\s*[\\@]brief\b", "", l) for l in lines]
        if any(re.match(r"\s*[\\@](remark|file)\b", l) for l in lines) or "<No documentation available>" in text:
            return []
        return lines
    return [text[3:]] if text.startswith("///") else text[3:-2].split("\n") if text.startswith("/**/") is False and text.startswith("/**") else []


def attached(parts, names, lang):
    """{name: the lines of the comments in front of its declaration}"""
    out, pending = {}, []
    for k, t in parts:
        if k:
            pending += comment_lines(t, lang)
            continue
        # (Attributes, preprocessor directives and keywords may come between docs and name.)
        for tok in re.findall(r"\w+|[;{}]", t):
            if tok in names and tok not in out:
                out[tok], pending = pending, []
            elif tok in ";{}":
                pending = []
    return out


def strip_summary(lines):
    return [l for l in lines if not re.fullmatch(r"\s*</?summary>\s*", l)]


def check_batch(base, name, items, root):
    dir_ = os.path.join(root, name)
    os.makedirs(dir_)
    got = {}

    def bad(what, *log):
        raise driver.Violation("%s: %s" % (name, what), dict(log=list(log)))
    for docs in (True, False):
        sub = os.path.join(dir_, "docs" if docs else "plain")
        os.makedirs(sub)
        src = os.path.join(sub, "main.rs")
        open(src, "w").write(PRELUDE + "".join("// %s\n%s\n" % (i.key, i.code(docs)) for i in items) + MAIN)
        sf.must(base.rustc(src, os.path.join(sub, "vp"), extra=["-C", "opt-level=0", "-C", "debuginfo=0"], name="vp"), "building documented items")
        r = subprocess.run([os.path.join(sub, "vp"), sub], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, CARGO_PKG_NAME="vp", RUST_BACKTRACE="0"), timeout=120)
        if r.returncode != 0:
            bad("generating headers of %s items failed" % ("documented" if docs else "undocumented"), r.stderr[-1500:])
        got[docs] = {l: open(os.path.join(sub, l), newline="", encoding="utf-8").read() for l in ("C", "CSharp", "Python")}
    n = 0
    for lang in ("C", "CSharp", "Python"):
        cut = cs_parts if lang == "CSharp" else c_parts
        try:
            parts, plain = cut(got[True][lang]), cut(got[False][lang])
        except Bad as e:
            bad("%s header: %s" % (lang, e))
        a, b = tokens(parts), tokens(plain)
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            bad("the %s header declares something else because of the docs: `%s` instead of `%s`" % (lang, " ".join(a[max(0, i - 6):i + 10]), " ".join(b[max(0, i - 6):i + 10])),
                *[it.key for it in items if any(w in "".join(a[max(0, i - 10):i + 20]) for w in it.words())])
        n += len(a)
        if lang == "Python":
            continue
        if lang == "C":
            for cc in (["gcc", "-std=c99", "-x", "c"], ["g++", "-std=c++11", "-x", "c++"]):
                h = os.path.join(dir_, "docs", "C")
                r = subprocess.run(cc + ["-fsyntax-only", "-w", h], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                if r.returncode:
                    bad("%s rejects the header" % cc[0], r.stderr[:1500])
        names = {x: it for it in items for x in it.names(lang)}
        # (Names of undocumented neighbours end the reach of a comment.)
        others = set(re.findall(r"\b(?:[SGOEKTfrabcmnot]|al|E\d+_V_[ABC]|V[ABC])\d+\w*", " ".join(a)))
        have = attached(parts, others | set(names), lang)
        for x, it in names.items():
            if x not in have:
                bad("%s: no %s is declared in the %s header" % (it.key, x, lang))
            lines = tidy([y for l in strip_summary(have[x]) for y in l.split("\n")] if lang == "CSharp" else re.split("[%s]" % NEWLINES, "\n".join(have[x])))
            want = it.expected()
            n += 1
            delicate = any(a.name in ("close", "one-line block", "markup", "code", "slash", "star") for a in it.seq)
            if any(a.name == "newlines" for a in it.seq):
                # (`\r\n` may be one line end or two.)
                lines, want = [l for l in lines if l], [l for l in want if l]
            if not (loose(lines) == loose(want) if delicate else lines == want):
                bad("%s: the docs of %s in the %s header are %s instead of %s" % (it.key, x, lang, json.dumps(lines), json.dumps(want)), it.code(True))
        # No docs elsewhere.
        for y, lines in have.items():
            if y not in names:
                for l in lines:
                    for w in re.findall(r"w\d+q\d+", l):
                        bad("docs of another item are in front of %s in the %s header: %s" % (y, lang, l))
    shutil.rmtree(dir_, ignore_errors=True)
    return dict(batch=name, items=len(items), comparisons=n)


def check(prop, tier):
    base = sf.Base(["headers", "async"])
    root = os.path.join(driver.BUILD, "gen", prop)
    shutil.rmtree(root, ignore_errors=True)
    full, core = (2, 0) if tier == "quick" else (2, 3)
    seqs = [s for k in range(full + 1) for s in itertools.product(ALPHABET, repeat=k)]
    if core:
        seqs += list(itertools.product(ALPHABET[:10], repeat=core))
    items, n = [], 0
    per_pos = {}
    for pos in POSITIONS:
        use = seqs
        if tier == "quick":
            # Pairs: of the first letters, in every position.
            use = [s for s in seqs if len(s) < 2 or (s[0] in ALPHABET[:10] and s[1] in ALPHABET[:10])]
        if "{X}" in pos[1]:
            use = [s for s in use if all(a.text is not None for a in s)]
        if pos[0] == "method":
            # (rustc 1.72 dies of it: the attributes also end up on the fields of the vtable's initializer.)
            use = [s for s in use if all(a.name != "alias" for a in s)]
        for s in use:
            items.append(Item(n, pos, s))
            n += 1
        per_pos[pos[0]] = len(use)
    size = 90 if tier == "quick" else 120
    # (Every batch mixes the positions, so that comments have neighbours of every kind.)
    k = -(-len(items) // size)
    batches = [("batch%d" % i, items[i::k]) for i in range(k)]
    only = os.environ.get("VP_ONLY")
    if only:
        batches = [b for b in batches if b[0].startswith(only)]
    try:
        res = sf.parallel(lambda b: check_batch(base, b[0], b[1], root), batches)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
    return dict(states=sum(r["items"] for r in res), transitions=sum(r["comparisons"] for r in res), traces_validated_against_impl=len(res) * 6,
                distinct_outcomes=len({it.key for _, b in batches for it in b}), positions=per_pos, exhaustive=True, samples=[it.key for it in items[::max(1, len(items) // 12)]])
