"""C13: the generated C header against the ABI rustc implements, for every type of a bounded grammar."""
import ctypes
import json
import os
import shutil
import subprocess
import sys

import abi
import driver
import sf
import types_grammar
from abi import Enum, Fn, Prim, Ptr, Void, closure_of, every, kind_of

CLANGS = [
    # (label, command, strict)
    ("gcc C99", ["gcc", "-std=c99"]),
    ("gcc C11 pedantic", ["gcc", "-std=c11", "-pedantic-errors"]),
    ("clang C99 pedantic", ["clang", "-std=c99", "-pedantic-errors"]),
    ("clang C17", ["clang", "-std=c17"]),
    ("g++ C++11", ["g++", "-x", "c++", "-std=c++11", "-pedantic-errors"]),
    ("clang++ C++17", ["clang++", "-x", "c++", "-std=c++17", "-pedantic-errors"]),
]
C_PRELUDE = r"""
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#include <type_traits>
#define SASSERT(c, m) static_assert(c, m)
#define TY(f) decltype(f(0))
#define OF(e) std::remove_reference<decltype(e)>::type
#define SAME(A, B, m) static_assert(std::is_same<A, B>::value, m)
#define TYP(f) std::remove_pointer<decltype(f(0))>::type
#define DIFF(A, B, m) static_assert(!std::is_same<A, B>::value, m)
#define ALIGNOF(T) alignof(T)
extern "C" uintptr_t vp_arena(void);
#else
#define SASSERT(c, m) _Static_assert(c, m)
#define TY(f) __typeof__(f(0))
#define OF(e) __typeof__(e)
#define SAME(A, B, m) _Static_assert(__builtin_types_compatible_p(A, B), m)
#define TYP(f) __typeof__(*f(0))
#define DIFF(A, B, m) _Static_assert(!__builtin_types_compatible_p(A, B), m)
#define ALIGNOF(T) _Alignof(T)
extern uintptr_t vp_arena(void);
#endif
static uint64_t mix(uint32_t seed, uint32_t i) {
    uint64_t x = (uint64_t)seed << 32 | ((uint64_t)i + 1);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9u;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebu;
    return x ^ (x >> 31);
}
#define V_u(T, seed, i) ((T)mix(seed, i))
#define V_b(T, seed, i) ((T)(mix(seed, i) & 1))
#define V_f4(T, seed, i) ((T)(mix(seed, i) & 0xffff) - 30000.5f)
#define V_f8(T, seed, i) ((T)(mix(seed, i) & 0xffffffff) - 30000.5)
#define V_p(T, seed, i) ((T)(vp_arena() + 16 * (mix(seed, i) % 200)))
#define V_e(T, vals, seed, i) ((T)vals[mix(seed, i) % (sizeof vals / sizeof vals[0])])
static long cases, checks;
#define FAIL(...) do { printf("MISMATCH "); printf(__VA_ARGS__); printf("\n"); exit(7); } while (0)
#define CHECK(c, ...) do { checks++; if (!(c)) FAIL(__VA_ARGS__); } while (0)
"""


def members(leaf_path, T):
    return "((%s *)0)->%s" % (T, leaf_path.lstrip(".")) if leaf_path else "*(%s *)0" % T


def value(l, T, seed, i):
    k = kind_of(l.ty)
    if k == "e":
        return "V_e(%s, vals_%s, %s, %d)" % (T, l.ty.key, seed, i)
    return "V_%s(%s, %s, %d)" % (k + (str(l.ty.size) if k == "f" else ""), T, seed, i)


def c_program(types, facts, header_name, seeds, full, extra_static="", extra_main=""):
    types = [t for t in closure_of(types) if t.pod]
    out = ['#include "%s"' % header_name, C_PRELUDE]
    n = 0
    for e in {x.key: x for t in types for x in every(t) if isinstance(x, Enum)}.values():
        out.append("static const %s vals_%s[] = { %s };" % (e.c(), e.key, ", ".join("(%s)%s" % (e.c(), e.enumerator(v)) for v, _ in e.variants)))
        for v, _ in e.variants:
            val = facts["E"][e.key, v]
            u = "%dull" % (val % 2 ** 64) if e.backing.size == 8 else "%d" % val
            out.append('SASSERT((%s)%s == (%s)%s, "enumerator %s::%s is %d");' % (e.backing.c(), e.enumerator(v), e.backing.c(), u, e.key, v, val))
        if e.repr != "C":
            out.append('typedef %s bk_%s; SAME(%s, bk_%s, "%s is a %s");' % (e.backing.c(), e.key, e.c(), e.key, e.key, e.repr))
    for t in types:
        k = t.key
        size, align = facts["T"][k]
        out.append("typedef TY(mk_%s) t_%s;" % (k, k))
        out.append("typedef %s; SAME(t_%s, w_%s, \"type of %s\");" % (t.c("w_" + k), k, k, k))
        out.append('SASSERT(sizeof(t_%s) == %d, "size of %s");' % (k, size, k))
        out.append('SASSERT(ALIGNOF(t_%s) == %d, "alignment of %s");' % (k, align, k))
        agg = t.fields() is not None and any(l.cpath for l in t.leaves())
        for i, l in enumerate(t.leaves()):
            off, sz = facts["L"][k, i]
            m = members(l.cpath, "t_" + k)
            out.append("typedef OF(%s) m_%d;" % (m, n))
            if agg:
                out.append('SASSERT(offsetof(t_%s, %s) == %d, "offset of %s%s");' % (k, l.cpath.lstrip("."), off, k, l.cpath))
                out.append("typedef %s; SAME(m_%d, x_%d, \"type of %s%s\");" % (l.ty.c("x_%d" % n), n, n, k, l.cpath))
            out.append('SASSERT(sizeof(m_%d) == %d, "size of %s%s");' % (n, sz, k, l.cpath))
            if isinstance(l.ty, Prim) and l.ty.kind in "ui":
                out.append('SASSERT(((m_%d)-1 < (m_%d)0) == %d, "signedness of %s%s");' % (n, n, l.ty.signed, k, l.cpath))
            l.m = "m_%d" % n
            l.owner = t
            n += 1
        t._leaves = t.leaves()
    out.append(extra_static)
    n = 0
    main = ["(void)mix;"]
    for t in types:
        k, ls = t.key, t.leaves()
        first = n
        n += len(ls)
        setall = lambda var, seed: " ".join("%s%s = %s;" % (var, l.cpath, value(l, "m_%d" % (first + i), seed, i)) for i, l in enumerate(ls))
        chk = lambda var, seed: " ".join('CHECK(%s%s == %s, "%s made by Rust: %s (seed %%d)", (int)(%s));' % (
            var, l.cpath, value(l, "m_%d" % (first + i), seed, i), k, l.cpath or "value", seed) for i, l in enumerate(ls))
        out.append("static void test_%s(void) {\n  for (uint32_t s = 0; s < %d; s++) {" % (k, seeds))
        out.append("    cases++; t_%s x = mk_%s(s); %s" % (k, k, chk("x", "s")))
        if full(t):
            out.append("    { t_%s y; memset((void *)&y, 0xA5, sizeof y); %s uint32_t r = eat_%s(y, s); CHECK(r == 0, \"%s given to Rust (seed %%d, leaf %%d)\", (int)s, (int)r - 1); }" % (k, setall("y", "s"), k, k))
            out.append("    { t_%s y, z; memset((void *)&z, 0x5A, sizeof z); %s uint32_t r = via_%s(&y, &z, s); CHECK(r == 0, \"%s through a pointer (seed %%d, leaf %%d)\", (int)s, (int)r - 1); %s }" % (k, setall("y", "s"), k, k, chk("z", "(s + 1)")))
        out.append("  }")
        if full(t):
            out.append("  { t_%s y, z; %s %s uint32_t r = mixed_%s(7, y, 2.5, z, 777); CHECK(r == 0, \"%s among other arguments (%%d)\", (int)r); }" % (k, setall("y", "5"), setall("z", "6"), k, k))
        out.append("}")
        main.append("  test_%s();" % k)
    main.append(extra_main)
    out.append("int main(void) {\n%s\n  printf(\"DONE %%ld %%ld\\n\", cases, checks);\n  return 0;\n}" % "\n".join(main))
    return "\n".join(out) + "\n"


def parse_facts(text):
    f = dict(T={}, L={}, E={}, K={})
    for line in text.splitlines():
        w = line.split(" ", 3)
        if w[0] == "T":
            f["T"][w[1]] = (int(w[2]), int(w[3]))
        elif w[0] == "L":
            a, b = w[3].split()
            f["L"][w[1], int(w[2])] = (int(a), int(b))
        elif w[0] == "E":
            f["E"][w[1], w[2]] = int(w[3])
        elif w[0] == "K":
            f["K"][w[1]] = w[2:]
    return f


GET = r"""
import ctypes, sys, json
lib = ctypes.CDLL(sys.argv[1])
lib.vp_header.restype = lib.vp_facts.restype = ctypes.c_char_p
print(json.dumps(dict(facts=lib.vp_facts().decode(), headers=[lib.vp_header(i).decode() for i in range(3)])))
"""


def make(base, batch, dir_):
    """Compiles a batch's Rust program; returns (library, facts, [C, C#, Python headers])."""
    os.makedirs(dir_, exist_ok=True)
    src, so = os.path.join(dir_, "lib.rs"), os.path.join(dir_, "libvp.so")
    open(src, "w").write(abi.rust_program(batch.types, batch.rust, batch.full))
    r = base.rustc(src, so, kind="cdylib", name="vp")
    if r.returncode != 0:
        raise driver.CheckError("batch %s does not compile:\n%s" % (batch.name, r.stderr[-5000:]))
    r = driver.run([sys.executable, "-c", GET, so])
    if r.returncode != 0:
        raise driver.Violation("generating the headers of batch %s killed the process (%s)" % (batch.name, r.returncode), dict(log=[r.stderr[-500:]]))
    d = json.loads(r.stdout)
    return so, parse_facts(d["facts"]), d["headers"]


def compile_errors(stderr):
    return [l for l in stderr.splitlines() if "error" in l][:6] or stderr.splitlines()[:6]


def check_batch(base, batch, root, seeds):
    dir_ = os.path.join(root, batch.name)
    so, facts, headers = make(base, batch, dir_)
    h = headers[0]

    def bad(what, log=()):
        keep = os.path.join(driver.HERE, "replays", "C13_" + batch.name)
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        for f in os.listdir(dir_):
            if f.endswith((".rs", ".h", ".c")):
                shutil.copy(os.path.join(dir_, f), keep)
        raise driver.Violation("%s: %s" % (batch.name, what), dict(log=list(log), files=keep))
    if h.startswith("!"):
        bad("header generation failed: %s" % h[1:])
    hp = os.path.join(dir_, "vp.h")
    open(hp, "w").write(h)
    n = 0
    for label, cmd in CLANGS:
        if batch.wide and "pedantic" in label:
            continue  # enumerators beyond int are an extension before C23
        if batch.wide and label.startswith(("g++", "clang++")):
            cmd = [c for c in cmd if c != "-pedantic-errors"]
        # as a translation unit of its own, twice (the guard)
        t = os.path.join(dir_, "alone.c")
        open(t, "w").write('#include "vp.h"\n#include "vp.h"\nextern int vp_x; int vp_x;\n')
        r = driver.run(cmd + ["-fsyntax-only", "-Wall", "-Wno-strict-prototypes", "-I", dir_, t])
        if r.returncode != 0:
            bad("the header is not valid %s: %s" % (label, "; ".join(compile_errors(r.stderr))), r.stderr.splitlines()[:30])
        n += 1
    prog = os.path.join(dir_, "test.c")
    open(prog, "w").write(c_program(batch.types, facts, "vp.h", seeds, batch.full, batch.c_static(facts), batch.c_main))
    cases = checks = 0
    for label, cmd in (("gcc", ["gcc", "-std=gnu11", "-O1"]), ("clang", ["clang", "-std=gnu11", "-O1"]), ("g++", ["g++", "-x", "c++", "-std=gnu++14", "-O1", "-fpermissive"])):
        exe = os.path.join(dir_, "test_" + label)
        r = driver.run(cmd + ["-w", "-I", dir_, prog, "-x", "none", "-o", exe, "-L", dir_, "-lvp", "-Wl,-rpath," + dir_])
        if r.returncode != 0:
            bad("a %s program built from the header: %s" % (label, "; ".join(compile_errors(r.stderr))), r.stderr.splitlines()[:40])
        r = driver.run([exe])
        if r.returncode != 0:
            bad("a %s program exchanging values: %s (exit %s)" % (label, r.stdout.strip()[-400:], r.returncode), r.stdout.splitlines()[-5:])
        w = r.stdout.split()
        cases += int(w[1])
        checks += int(w[2])
    ts = [t for t in closure_of(batch.types) if t.pod]
    res = dict(batch=batch.name, types=len(ts), leaves=sum(len(t.leaves()) for t in ts), functions=h.count(");"), headers_compiled=n,
               exchanges=cases, values_compared=checks, header_lines=h.count("\n"))
    shutil.rmtree(dir_, ignore_errors=True)
    return res


def odd_consts(base, root, tier):
    """The constants that have no literal by their Debug form: each fails only if that is a listed finding."""
    cases = types_grammar.ODD_CONSTS
    b = types_grammar.Batch("odd_consts", [types_grammar.E8], "\n".join(c[1] for c in cases))
    dir_ = os.path.join(root, b.name)
    so, facts, headers = make(base, b, dir_)
    known = driver.known_findings("C13")
    open(os.path.join(dir_, "vp.h"), "w").write(headers[0])
    n = 0
    for key, item, name, cond in cases:
        for label, cmd in CLANGS[:1] + CLANGS[3:5]:
            src, exe = os.path.join(dir_, "odd.c"), os.path.join(dir_, "odd")
            open(src, "w").write('#include "vp.h"\n#include <stdint.h>\n#include <string.h>\nint main(void) { return (%s) ? 0 : 5; }\n' % cond)
            r = driver.run(cmd + ["-w", "-I", dir_, src, "-o", exe])
            if r.returncode == 0:
                r = driver.run([exe])
            n += 1
            if r.returncode != 0 and not any(k.startswith(key + ":") for k in known):
                raise driver.Violation("odd_consts: %s: %s" % (key, r.stderr[:300] or "wrong value"), dict(log=[item, cond, label]))
    return dict(batch=b.name, types=len(cases), leaves=len(cases), functions=0, headers_compiled=n, exchanges=n, values_compared=n, header_lines=headers[0].count("\n"))


def check(prop, tier):
    base = sf.Base(["headers", "async"])
    root = os.path.join(driver.BUILD, "gen", prop)
    shutil.rmtree(root, ignore_errors=True)
    batches = types_grammar.batches(tier)
    only = os.environ.get("VP_ONLY")
    if only:
        batches = [b for b in batches if b.name.startswith(only)]
    try:
        res = sf.parallel(lambda b: check_batch(base, b, root, 4 if tier == "quick" else 200), batches)
        res.append(odd_consts(base, root, tier))
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
    tot = lambda k: sum(r[k] for r in res)
    return dict(states=tot("types"), transitions=tot("values_compared"), traces_validated_against_impl=tot("exchanges"),
                distinct_outcomes=tot("leaves"), functions=tot("functions"), headers_compiled=tot("headers_compiled"), exhaustive=True,
                samples=[json.dumps(r) for r in res[:12]], batches=res)
