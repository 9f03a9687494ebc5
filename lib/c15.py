"""C15: the generated C# declarations against the ABI rustc implements, over the grammar of C13."""
import json
import os
import re
import shutil
import struct

import abi
import c13
import csharp
import driver
import sf
import types_grammar
from abi import Arr, Enum, Fn, Lib, Opaque, Prim, Ptr, Struct, Transparent, Void, closure_of, every

KIND = dict(u8="u1", i8="i1", u16="u2", i16="i2", u32="u4", i32="i4", u64="u8", i64="i8", usize="un", isize="in", f32="f4", f64="f8", c_int="i4", c_char="u1", bool="bool")


class Compare:
    def __init__(self, src, facts):
        self.src, self.facts, self.seen, self.n = src, facts, {}, 0

    def need(self, c, what, *a):
        self.n += 1
        if not c:
            raise csharp.Error(what % a if a else what)

    def value(self, t, ty, marshal, where):
        """A field, parameter or result of the Rust type t is declared as ty."""
        name, stars = ty
        if isinstance(t, Transparent):
            return self.value(t.inner, ty, marshal, where)
        if isinstance(t, Void):
            return self.need(ty == ("void", 0), "%s: %s instead of void", where, ty)
        if isinstance(t, Prim):
            self.need(not stars and name in csharp.PRIMS and csharp.PRIMS[name][1] == KIND[t.name], "%s: %s instead of %s", where, name, t.name)
            size = self.src.native(ty, marshal, where)[0]
            return self.need(size == t.size, "%s: %d bytes instead of %d", where, size, t.size)
        if isinstance(t, Ptr):
            self.need(stars > 0, "%s: %s instead of a pointer", where, name)
            return self.pointee(t.to, (name, stars - 1), where + ", pointee")
        self.need(not stars and name in self.src.types, "%s: %s instead of %s", where, name, t.key)
        d = self.src.types[name]
        if isinstance(t, Fn):
            self.need(d.what == "delegate", "%s: %s is no delegate", where, name)
            return self.once(t, name, lambda: self.signature(d, [(None, a) for a in t.args], t.ret))
        self.src.native(ty, marshal, where)
        if isinstance(t, Enum):
            self.need(d.what == "enum", "%s: %s is no enum", where, name)
            return self.once(t, name, lambda: self.enum(t, d))
        self.need(d.what == "struct", "%s: %s is no struct", where, name)
        self.once(t, name, lambda: self.struct(t, d))

    def pointee(self, t, ty, where):
        if isinstance(t, Transparent):
            return self.pointee(t.inner, ty, where)
        if isinstance(t, Opaque):
            name, stars = ty
            self.need(not stars and name in self.src.types and self.src.types[name].what == "struct" and self.src.types[name].opaque, "%s: %s is no opaque type", where, name)
            return
        if isinstance(t, Prim):
            # (Nothing is marshaled.)
            return self.need(ty[1] == 0 and ty[0] in csharp.PRIMS and csharp.PRIMS[ty[0]][1] == KIND[t.name], "%s: %s instead of %s", where, ty, t.name)
        self.value(t, ty, None, where)

    def once(self, t, name, f):
        if self.seen.get(t.key) is None:
            self.seen[t.key] = name
            f()
        self.need(self.seen[t.key] == name, "%s is both %s and %s", t.key, name, self.seen[t.key])

    def enum(self, t, d):
        self.need(d.name == t.cname + "_t", "enum %s is named %s", t.key, d.name)
        self.need(d.kind == KIND[t.backing.name], "enum %s is based on %s", t.key, d.kind)
        want = {v: self.facts["E"][t.key, v] for v, _ in t.variants}
        self.need(d.members == want, "enum %s: %s instead of %s", t.key, {k: v for k, v in d.members.items() if want.get(k) != v} or d.members, want if len(want) < 10 else "")

    def struct(self, t, d):
        k = t.key
        size, al = self.src.layout(d.name)
        if k in self.facts["T"]:
            self.need((size, al) == self.facts["T"][k], "%s: size and alignment are %s instead of %s", k, (size, al), self.facts["T"][k])
        if isinstance(t, Struct) and not t.generics:
            self.need(d.name == (t.rename or t.name) + "_t", "%s is named %s", k, d.name)
        if isinstance(t, Arr):
            if d.fields[0].fixed is not None:
                self.need(len(d.fields) == 1 and d.fields[0].fixed == t.n, "%s has %d elements", k, d.fields[0].fixed)
                return self.pointee(t.t, d.fields[0].ty, k)
            self.need([f.name for f in d.fields] == ["_%d" % i for i in range(t.n)], "%s has elements %s", k, [f.name for f in d.fields][:8])
            for f in d.fields:
                self.value(t.t, f.ty, f.marshal, "%s[%s]" % (k, f.name))
            return
        want = t.fields()
        self.need([f.name for f in d.fields] == [p.lstrip(".") for _, p, _ in want], "the fields of %s are %s instead of %s", k, [f.name for f in d.fields], [p for _, p, _ in want])
        for f, (_, p, u) in zip(d.fields, want):
            if isinstance(t, Lib) and t.key == "bytes" and p == ".vtable":
                continue
            self.value(u, f.ty, f.marshal, k + p)

    def signature(self, d, params, ret):
        self.need(len(d.params) == len(params), "%s has %d parameters instead of %d", d.name, len(d.params), len(params))
        for p, (n, t) in zip(d.params, params):
            if n is not None:
                self.need(p.name == n, "%s: parameter %s instead of %s", d.name, p.name, n)
            self.value(t, p.ty, p.marshal, "%s, parameter %s" % (d.name, p.name))
        self.value(ret, d.ret, d.ret_marshal, "%s, result" % d.name)

    def function(self, name, params, ret):
        self.need(name in self.src.fns, "function %s is not declared", name)
        d = self.src.fns[name]
        self.need(d.entry == name, "function %s has the entry point %s", name, d.entry)
        self.signature(d, params, ret)

    def offsets(self, t):
        """The marshaled offset and size of every leaf."""
        ty = self.src.fns["mk_" + t.key].ret
        for i, l in enumerate(t.leaves()):
            off, size = self.facts["L"][t.key, i]
            at, cur = 0, ty
            marshal = None
            for idx, field in re.findall(r"\.idx\[(\d+)\]|\.(\w+)", l.cpath):
                d = self.src.types[cur[0]]
                if idx and d.fields[0].fixed is not None:
                    f = d.fields[0]
                    at += f.off + int(idx) * f.item
                else:
                    f = next(x for x in d.fields if x.name == (field or "_" + idx))
                    at += f.off
                cur, marshal = f.ty, f.marshal
            self.need(at == off, "offset of %s%s: %d instead of %d", t.key, l.cpath, at, off)
            if l.cpath:
                s = self.src.native(cur, marshal, t.key)[0]
                self.need(s == size, "size of %s%s: %d instead of %d", t.key, l.cpath, s, size)


def symbols(so):
    r = driver.run(["nm", "-D", "--defined-only", so])
    return {l.split()[-1] for l in r.stdout.splitlines() if l}


def check_batch(base, batch, root, seeds):
    dir_ = os.path.join(root, batch.name)
    so, facts, headers = c13.make(base, batch, dir_)
    h = headers[1]

    def bad(what, log=()):
        keep = os.path.join(driver.HERE, "replays", "C15_" + batch.name)
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        open(os.path.join(keep, "vp.cs"), "w").write(h)
        shutil.copy(os.path.join(dir_, "lib.rs"), keep)
        raise driver.Violation("%s: %s" % (batch.name, what), dict(log=list(log), files=keep))
    if h.startswith("!"):
        bad("generating the C# header failed: %s" % h[1:])
    known = driver.known_findings("C15")
    try:
        src = csharp.Source(h)
        cmp = Compare(src, facts)
        U32 = abi.P["u32"]
        for t in [t for t in closure_of(batch.types) if t.pod]:
            k = t.key
            cmp.function("mk_" + k, [("seed", U32)], t)
            if batch.full(t):
                cmp.function("eat_" + k, [("x", t), ("seed", U32)], U32)
                cmp.function("mixed_" + k, [("a", abi.P["u8"]), ("x", t), ("b", abi.P["f64"]), ("y", t), ("c", abi.P["u16"])], U32)
                cmp.function("via_" + k, [("x", Ptr(abi.CONST, t)), ("dst", Ptr(abi.MUT, t)), ("seed", U32)], U32)
            cmp.offsets(t)
        for name, params, ret in batch.fns:
            cmp.function(name, params, ret)
        syms = symbols(so)
        for n, d in src.fns.items():
            cmp.need(d.entry in syms, "%s is no symbol of the library", d.entry)
        for name, how, ty, v in batch.consts:
            if how != "typed":
                continue
            if name not in src.consts:
                raise csharp.Error("constant %s is missing" % name)
            t, val = src.consts[name]
            cmp.need(csharp.PRIMS.get(t[0], (0, 0))[1] == KIND[ty], "constant %s is a %s", name, t[0])
            if ty in ("usize", "isize") and not (0 <= v < 1 << 32 if ty == "usize" else -1 << 31 <= v < 1 << 31) and any(x.startswith("pointer-sized constant beyond 32 bits:") for x in known):
                cmp.need([x for _, x in val] in ([str(v)], ["-", str(-v)]), "constant %s is %s instead of %s", name, val, v)
                continue
            got = src.constant(name, t, val)
            want = v == "true" if ty == "bool" else float(v) if ty[0] == "f" else v
            if ty == "f32":
                got, want = (struct.unpack("f", struct.pack("f", x))[0] for x in (got, want))
            cmp.need(got == want, "constant %s is %s instead of %s", name, got, want)
        for f, k in (("new_shape", "Shape"), ("new_tag", "Tag")):
            if k in facts["K"]:
                got = src.native(src.fns[f].ret, None, f)
                cmp.need(got == tuple(map(int, facts["K"][k])), "what %s returns has size and alignment %s", f, got)
    except csharp.Error as e:
        bad(str(e))
    shutil.rmtree(dir_, ignore_errors=True)
    return dict(batch=batch.name, types=len([t for t in closure_of(batch.types) if t.pod]), declarations=len(src.types), functions=len(src.fns), comparisons=cmp.n,
                header_lines=h.count("\n"), leaves=sum(len(t.leaves()) for t in closure_of(batch.types) if t.pod))


def check(prop, tier):
    base = sf.Base(["headers", "async"])
    root = os.path.join(driver.BUILD, "gen", prop)
    shutil.rmtree(root, ignore_errors=True)
    batches = types_grammar.batches(tier)
    only = os.environ.get("VP_ONLY")
    if only:
        batches = [b for b in batches if b.name.startswith(only)]
    try:
        res = sf.parallel(lambda b: check_batch(base, b, root, 0), batches)
        odd = odd_consts(base, root)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
    tot = lambda k: sum(r[k] for r in res)
    return dict(states=tot("types"), transitions=tot("comparisons"), traces_validated_against_impl=tot("functions"),
                distinct_outcomes=tot("declarations"), leaves=tot("leaves"), odd_constants=odd, exhaustive=True,
                samples=[json.dumps(r) for r in res[:12]], batches=res)


def odd_consts(base, root):
    """The constants that have no literal by their Debug form: each fails only if that is a listed finding."""
    known = driver.known_findings("C15")
    n = 0
    for key, item, name in (("constant of an enum type", "#[ffi_export] pub const K: SmallEnum = SmallEnum::Second;", "K"),
                            ("infinite float constant", "#[ffi_export] pub const K: f64 = f64::INFINITY;", "K"),
                            ("NaN constant", "#[ffi_export] pub const K: f32 = f32::NAN;", "K")):
        b = types_grammar.Batch("odd_%d" % n, [types_grammar.E8], item)
        dir_ = os.path.join(root, b.name)
        so, facts, headers = c13.make(base, b, dir_)
        n += 1
        try:
            src = csharp.Source(headers[1])
            t, val = src.consts[name]
            if "enum" in key:
                got = [x for _, x in val]
                if got not in (["SmallEnum_t", ".", "Second"],):
                    raise csharp.Error("%s" % got)
            else:
                got = src.constant(name, t, val)
                if not (got != got if "NaN" in key else got == float("inf")):
                    raise csharp.Error("%s" % got)
        except (csharp.Error, KeyError) as e:
            if not any(k.startswith(key + ":") for k in known):
                raise driver.Violation("%s: %s" % (key, e), dict(log=[item, headers[1]]))
    return n
