"""Run by python3-vt, which has cffi: `ffi.cdef`s a generated Python header, compares what cffi makes of it with the facts
rustc stated, and exchanges values with the library. Reads a JSON request on stdin, prints a JSON answer."""
import json
import re
import sys

import cffi


class Bad(Exception):
    pass


def bad(what):
    raise Bad(what)


def mix(seed, i):
    m = 2 ** 64 - 1
    x = (seed << 32 | (i + 1)) & m
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9 & m
    x = (x ^ (x >> 27)) * 0x94d049bb133111eb & m
    return x ^ (x >> 31)


def steps(path):
    return [int(a) if a else b for a, b in re.findall(r"\[(\d+)\]|\.(\w+)", path)]


class Run:
    def __init__(self, q):
        self.q = q
        self.ffi = cffi.FFI()
        try:
            self.ffi.cdef(q["header"])
        except Exception as e:  # whatever cffi makes of it
            bad("cffi rejects the header: %s: %s" % (type(e).__name__, str(e)[:400]))
        self.lib = self.ffi.dlopen(q["so"])
        self.T = {}
        self.cases = self.checks = 0
        # (not declared by the header: a support function of the harness)
        import ctypes
        c = ctypes.CDLL(q["so"])
        c.vp_arena.restype = ctypes.c_size_t
        self.arena = c.vp_arena()

    def check(self, c, what, *a):
        self.checks += 1
        if not c:
            bad(what % a if a else what)

    def prim(self, T):
        n = T.cname
        if n in ("float", "double", "_Bool", "char"):
            return n
        return (self.ffi.sizeof(T), int(self.ffi.cast(T, -1)) < 0)

    def alike(self, A, B):
        """One and the same type, but for the name of an integer type (`ptrdiff_t`, `intptr_t`)."""
        if A is B or A == B:
            return True
        if A.kind != B.kind:
            return False
        if A.kind == "primitive":
            return self.prim(A) == self.prim(B)
        if A.kind == "pointer":
            return self.alike(A.item, B.item)
        if A.kind == "array":
            return A.length == B.length and self.alike(A.item, B.item)
        if A.kind == "function":
            return len(A.args) == len(B.args) and A.ellipsis == B.ellipsis and self.alike(A.result, B.result) and all(map(self.alike, A.args, B.args))
        return False

    def fn(self, name):
        try:
            return getattr(self.lib, name)
        except AttributeError as e:
            bad("function %s is not declared, or not found: %s" % (name, e))

    def spec(self, s):
        """The cffi type of an independent specification, TY(f) and TYP(f) being what f returns / points to."""
        def name(m):
            t = self.ffi.typeof(self.fn(m.group(2))).result
            return (t.item if m.group(1) == "TYP" else t).cname
        s = re.sub(r"\b(TYP|TY)\((\w+)\)", name, s)
        try:
            return self.ffi.typeof(s)
        except Exception as e:
            bad("`%s` is not declared: %s" % (s, str(e)[:200]))

    def val(self, l, seed, i):
        x, k = mix(seed, i), l["kind"]
        if k == "b":
            return x & 1
        if k == "f":
            return (x & (0xffff if l["size"] == 4 else 0xffffffff)) - 30000.5
        if k == "p":
            return self.arena + 16 * (x % 200)
        if k == "e":
            return l["values"][x % len(l["values"])]
        x &= 2 ** (8 * l["size"]) - 1
        return x - 2 ** (8 * l["size"]) if l["signed"] and x >> (8 * l["size"] - 1) else x

    def read(self, v):
        if isinstance(v, bytes):
            return ord(v)
        if isinstance(v, (bool, int, float)):
            return v
        return int(self.ffi.cast("uintptr_t", v))

    def make(self, l, v):
        if l["T"].kind in ("pointer", "function"):
            return self.ffi.cast(l["T"], v)
        if l["T"].cname == "char":
            return bytes([v & 0xff])
        return v

    def get(self, x, path):
        for s in path:
            x = x[s] if isinstance(s, int) else getattr(x, s)
        return x

    def put(self, p, path, v):
        """into what the pointer p points to"""
        if not path:
            p[0] = v
            return
        x = self.get(p[0], path[:-1])
        if isinstance(path[-1], int):
            x[path[-1]] = v
        else:
            setattr(x, path[-1], v)

    def type_(self, t):
        ffi, k = self.ffi, t["key"]
        T = ffi.typeof(self.fn("mk_" + k))
        self.check(len(T.args) == 1 and self.alike(T.args[0], ffi.typeof("uint32_t")), "mk_%s takes %s", k, [a.cname for a in T.args])
        T = T.result
        self.T[k] = T
        want = self.spec(t["spec"])
        self.check(self.alike(T, want), "type of %s: %s instead of %s", k, T.cname, want.cname)
        self.check(ffi.sizeof(T) == t["size"], "size of %s: %d instead of %d", k, ffi.sizeof(T), t["size"])
        self.check(ffi.alignof(T) == t["align"], "alignment of %s: %d instead of %d", k, ffi.alignof(T), t["align"])
        for l in t["leaves"]:
            l["steps"] = p = steps(l["path"])
            l["T"] = want = self.spec(l["spec"])
            U = T
            for s in p:
                if isinstance(s, int):
                    self.check(U.kind == "array" and s < U.length, "%s%s is not an array of the right length", k, l["path"])
                    U = U.item
                else:
                    self.check(U.kind == "struct" and s in dict(U.fields), "%s%s does not exist", k, l["path"])
                    U = dict(U.fields)[s].type
            self.check(self.alike(U, want), "type of %s%s: %s instead of %s", k, l["path"], U.cname, want.cname)
            l["T"] = U
            self.check(ffi.sizeof(U) == l["size"], "size of %s%s", k, l["path"])
            if p:
                self.check(ffi.offsetof(T, *p) == l["off"], "offset of %s%s: %d instead of %d", k, l["path"], ffi.offsetof(T, *p), l["off"])
        if T.kind == "struct":
            n = sum(len(self.flat(f.type)) for _, f in T.fields)
            self.check(n == t["scalars"], "%s has %d scalars instead of %d", k, n, t["scalars"])

    def flat(self, T):
        if T.kind == "struct":
            return [x for _, f in T.fields for x in self.flat(f.type)]
        if T.kind == "array":
            return self.flat(T.item) * T.length
        return [T]

    def value(self, t, seed, fill):
        """A pointer to a new value of the type."""
        T = self.T[t["key"]]
        p = self.ffi.new(self.ffi.getctype(T, "*"))
        self.ffi.buffer(p)[:] = bytes([fill]) * self.ffi.sizeof(T)
        for i, l in enumerate(t["leaves"]):
            self.put(p, l["steps"], self.make(l, self.val(l, seed, i)))
        return p

    def same(self, t, x, seed, what):
        for i, l in enumerate(t["leaves"]):
            got, want = self.read(self.get(x, l["steps"])), self.val(l, seed, i)
            self.check(got == want, "%s: %s%s is %s instead of %s (seed %d)", what, t["key"], l["path"], got, want, seed)

    def exchange(self, t):
        k = t["key"]
        for s in range(self.q["seeds"]):
            self.cases += 1
            self.same(t, self.fn("mk_" + k)(s), s, "made by Rust")
            if not t["full"]:
                continue
            p = self.value(t, s, 0xA5)
            r = self.fn("eat_" + k)(p[0], s)
            self.check(r == 0, "%s given to Rust (seed %d, leaf %d)", k, s, r - 1)
            z = self.ffi.new(self.ffi.getctype(self.T[k], "*"))
            r = self.fn("via_" + k)(p, z, s)
            self.check(r == 0, "%s through a pointer (seed %d, leaf %d)", k, s, r - 1)
            self.same(t, z[0], s + 1, "through a pointer")
        if t["full"]:
            r = self.fn("mixed_" + k)(7, self.value(t, 5, 0)[0], 2.5, self.value(t, 6, 0)[0], 777)
            self.check(r == 0, "%s among other arguments (%d)", k, r)

    def functions(self):
        for i, (name, decl, args, ret) in enumerate(self.q["fns"]):
            f = self.fn(name)
            want = self.spec(decl)
            self.check(self.alike(self.ffi.typeof(f), want), "type of %s: %s instead of %s", name, self.ffi.typeof(f).cname, want.cname)
            self.cases += 1
            r = f(*args)
            self.check(r == ret, "result of %s: %s instead of %s", name, r, ret)
            if name != "in_a_module":
                self.check(self.lib.vp_seen() == i + 1, "arguments of %s", name)

    def run(self):
        for e in self.q["enums"]:
            for n, v in e["values"]:
                try:
                    got = getattr(self.lib, n)
                except AttributeError:
                    bad("enumerator %s is not declared" % n)
                self.check(got == v, "enumerator %s is %s instead of %s", n, got, v)
        for t in self.q["types"]:
            self.type_(t)
        for t in self.q["types"]:
            self.exchange(t)
        self.functions()
        for f, size, align in self.q["sizes"]:
            T = self.ffi.typeof(self.fn(f)).result
            self.check((self.ffi.sizeof(T), self.ffi.alignof(T)) == (size, align), "size of what %s returns: %d instead of %d", f, self.ffi.sizeof(T), size)
        if self.q["virtual"]:
            self.virtual()

    def virtual(self):
        lib = self.lib
        s = lib.new_shape(5)
        self.check(s.vtable.area(s.ptr, 7) == 35, "virtual area")
        p = self.ffi.new(self.ffi.getctype(self.T["Pair"], "*"))
        p.first, p.second = 2, 10
        s.vtable.grow(s.ptr, 3, p[0])
        ps = self.ffi.new(self.ffi.getctype(self.ffi.typeof(s), "*"), s)
        self.check(lib.shape_area(ps, 2) == 56, "virtual grow")
        self.check(s.vtable.name(s.ptr) == -3, "virtual name")
        q = s.vtable.last(s.ptr, 9, 1000, 5.5, True)
        self.check((q.first, q.second) == (10, 1005), "virtual last")
        s.vtable.release_vptr(s.ptr)
        self.check(lib.drops() == 1, "virtual release")
        t = lib.new_tag(7)
        u = t.vtable.retain_vptr(t.ptr)
        t.vtable.release_vptr(t.ptr)
        self.check(lib.drops() == 2 and t.vtable.tag(u) == 7, "virtual retain")
        t.vtable.release_vptr(u)
        self.check(lib.drops() == 3, "virtual release")
        self.cases += 2


def api(q, r):
    """API mode: a C compiler accepts the declarations next to the C header, and cffi finds no difference."""
    import importlib.util
    import os
    import subprocess
    import sysconfig
    ffi = cffi.FFI()
    ffi.cdef(q["header"])
    # Not used through a prototype that would differ by `const` alone.
    ffi.set_source("vp_api", '#include "vp.h"\n')
    d = q["dir"]
    c = os.path.join(d, "vp_api.c")
    ffi.emit_c_code(c)
    so = os.path.join(d, "vp_api.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O0", "-w", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Wno-discarded-qualifiers",
                        "-I", d, "-I", sysconfig.get_paths()["include"], c, "-o", so, q["so"], "-Wl,-rpath," + d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        bad("the module that cffi makes of the Python and C headers does not compile: %s" % "; ".join([l for l in p.stdout.splitlines() if "error" in l][:4]))
    s = importlib.util.spec_from_file_location("vp_api", so)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for n in dir(m.lib):
        try:
            getattr(m.lib, n)
        except Exception as e:
            bad("%s differs between the Python and C headers: %s" % (n, e))
        r.checks += 1
    for f in [n for n in dir(m.lib) if n.startswith("mk_")]:
        T = m.ffi.typeof(getattr(m.lib, f)).result
        try:
            if T.kind == "struct":
                T.fields
        except Exception as e:
            bad("what %s returns differs between the Python and C headers: %s" % (f, e))
        r.checks += 1
    for n, kind, v in q["consts"]:
        if not hasattr(m.lib, n):
            bad("constant %s is missing" % n)
        x = getattr(m.lib, n)
        if kind == "str":
            x = m.ffi.string(x).decode()
        r.check(x == v, "constant %s is %r instead of %r", n, x, v)
        r.cases += 1


def main():
    q = json.load(sys.stdin)
    try:
        r = Run(q)
        r.run()
        if q["api"]:
            api(q, r)
    except Bad as e:
        print(json.dumps(dict(bad=str(e))))
        return
    print(json.dumps(dict(cases=r.cases, checks=r.checks)))


main()
