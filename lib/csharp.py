"""A reader of C# sources of P/Invoke declarations, and the layout their marshaled form has on 64-bit targets.

No C# compiler is at hand: the rules of the language and of the marshaler that matter here are modelled, and anything
that is not understood is an error.
"""
import re

KEYWORDS = set("""abstract as base bool break byte case catch char checked class const continue decimal default delegate do double else
enum event explicit extern false finally fixed float for foreach goto if implicit in int interface internal is lock long namespace new null
object operator out override params private protected public readonly ref return sbyte sealed short sizeof stackalloc static string struct
switch this throw true try typeof uint ulong unchecked unsafe ushort using virtual void volatile while""".split())
#        name: (size, signed, canonical)
PRIMS = {}
for names, size, kind in (("byte Byte", 1, "u1"), ("sbyte SByte", 1, "i1"), ("ushort UInt16", 2, "u2"), ("short Int16", 2, "i2"), ("uint UInt32", 4, "u4"),
                          ("int Int32", 4, "i4"), ("ulong UInt64", 8, "u8"), ("long Int64", 8, "i8"), ("UIntPtr nuint", 8, "un"), ("IntPtr nint", 8, "in"),
                          ("float Single", 4, "f4"), ("double Double", 8, "f8"), ("bool Boolean", 4, "bool")):
    for n in names.split():
        PRIMS[n] = (size, kind)
FIXED_OK = {"u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", "f8"}
MARSHAL = {"U1": ({"bool", "u1"}, 1), "I1": ({"bool", "i1"}, 1), "I2": ({"i2"}, 2), "U2": ({"u2"}, 2), "I4": ({"i4", "u4", "bool"}, 4), "U4": ({"u4", "i4"}, 4),
           "I8": ({"i8"}, 8), "U8": ({"u8"}, 8), "R4": ({"f4"}, 4), "R8": ({"f8"}, 8), "SysInt": ({"in"}, 8), "SysUInt": ({"un"}, 8)}


class Error(Exception):
    pass


TOKEN = re.compile(r"""\s*(?:(?P<com>///?[^\n]*|/\*.*?\*/)|(?P<dir>\#[^\n]*)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>-?\d[\w.]*(?:(?<=[eE])[-+]\d+\w*)?)|(?P<id>@?[^\W\d]\w*)|(?P<op>[-{}()\[\]<>;:,=*.]))""", re.S)


def tokens(text):
    out, pos, skip = [], 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Error("not understood: %r" % text[pos:pos + 60].strip())
        pos = m.end()
        if m.lastgroup == "dir":
            d = m.group("dir")
            # (Only the two branches for the name of the library.)
            if d.startswith("#if"):
                skip.append(True)
            elif d.startswith("#else"):
                skip[-1] = not skip[-1]
            elif d.startswith("#endif"):
                skip.pop()
            elif not d.startswith("#pragma warning"):
                raise Error("directive not understood: %s" % d)
            continue
        if m.lastgroup == "com" or any(skip):
            continue
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class Decl:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Source:
    """types: {name: Decl}; fns: {name: Decl}; consts: {name: (type, value tokens)}."""

    def __init__(self, text):
        self.toks, self.i = tokens(text), 0
        self.types, self.fns, self.consts, self.usings, self.lib = {}, {}, {}, [], None
        self.order = []
        self.file()
        self.resolve()

    # --- reading

    def peek(self, k=0):
        return self.toks[self.i + k][1] if self.i + k < len(self.toks) else None

    def take(self, *want):
        t = self.peek()
        if t is None or want and t not in want:
            raise Error("expected %s, found %r after %s" % (" or ".join(want) or "more", t, " ".join(x[1] for x in self.toks[max(0, self.i - 8):self.i])))
        self.i += 1
        return t

    def maybe(self, *want):
        if self.peek() in want:
            return self.take()

    def name(self):
        k, v = self.toks[self.i] if self.i < len(self.toks) else (None, None)
        if k != "id":
            raise Error("expected a name, found %r after %s" % (v, " ".join(x[1] for x in self.toks[max(0, self.i - 8):self.i])))
        if v in KEYWORDS:
            raise Error("%r is a keyword" % v)
        self.i += 1
        return v.lstrip("@")

    def type_(self):
        k, v = self.toks[self.i]
        if k != "id":
            raise Error("expected a type, found %r after %s" % (v, " ".join(x[1] for x in self.toks[max(0, self.i - 8):self.i])))
        self.i += 1
        if v in KEYWORDS and v not in PRIMS and v != "void":
            raise Error("%r is no type" % v)
        stars = 0
        while self.maybe("*"):
            stars += 1
        return (v, stars)

    def attributes(self):
        """[(target, name, [arguments])]"""
        out = []
        while self.peek() == "[":
            self.take("[")
            target = None
            if self.peek(1) == ":":
                target = self.take("return")
                self.take(":")
            n = self.take()
            args = []
            if self.maybe("("):
                depth, cur = 1, []
                while True:
                    t = self.take()
                    depth += (t == "(") - (t == ")")
                    if depth == 0 or depth == 1 and t == ",":
                        args.append("".join(cur))
                        cur = []
                        if depth == 0:
                            break
                        continue
                    cur.append(t)
            self.take("]")
            out.append((target, n, args))
        return out

    @staticmethod
    def marshal(attrs, target=None):
        out = None
        for t, n, args in attrs:
            if n == "MarshalAs" and t == target:
                if out or len(args) != 1 or not args[0].startswith("UnmanagedType."):
                    raise Error("MarshalAs(%s)" % ",".join(args))
                out = args[0][len("UnmanagedType."):]
            elif n == "MarshalAs" and target is None:
                raise Error("misplaced MarshalAs")
        return out

    def file(self):
        self.take("namespace")
        self.name()
        while self.maybe("."):
            self.name()
        self.take("{")
        while self.maybe("using"):
            n = self.name()
            while self.maybe("."):
                n += "." + self.name()
            self.take(";")
            self.usings.append(n)
        while not self.maybe("}"):
            self.declaration()
        if self.peek() is not None:
            raise Error("text after the namespace: %s" % self.peek())
        for u in ("System", "System.Runtime.InteropServices"):
            if u not in self.usings:
                raise Error("`using %s` is missing" % u)

    def modifiers(self):
        out = []
        while self.peek() in ("public", "private", "unsafe", "static", "extern", "partial", "const", "internal"):
            out.append(self.take())
        return out

    def add(self, d):
        if d.name in self.types:
            raise Error("%s is declared twice" % d.name)
        self.types[d.name] = d
        self.order.append(d.name)

    def declaration(self):
        attrs = self.attributes()
        mods = self.modifiers()
        kw = self.take("class", "struct", "enum", "delegate")
        if kw == "class":
            if attrs or "partial" not in mods or "public" not in mods:
                raise Error("class: %s" % mods)
            if self.name() != "Ffi":
                raise Error("another class")
            self.take("{")
            while not self.maybe("}"):
                self.member("unsafe" in mods)
        elif kw == "enum":
            self.enum(attrs)
        elif kw == "struct":
            self.struct(attrs, mods)
        else:
            self.delegate(attrs, mods)

    def number(self):
        k, v = self.toks[self.i]
        neg = False
        if v == "-":
            neg = True
            self.i += 1
            k, v = self.toks[self.i]
        if k != "num" or not re.fullmatch(r"-?\d+", v):
            raise Error("expected a number, found %r" % v)
        self.i += 1
        return -int(v) if neg else int(v)

    def enum(self, attrs):
        if attrs:
            raise Error("attributes of an enum")
        n = self.name()
        base = ("Int32", 0)
        if self.maybe(":"):
            base = self.type_()
        if base[1] or base[0] not in PRIMS or PRIMS[base[0]][1] not in ("u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8"):
            raise Error("enum %s cannot be based on %s" % (n, base[0]))
        size, kind = PRIMS[base[0]]
        lo, hi = (0, 2 ** (8 * size) - 1) if kind[0] == "u" else (-2 ** (8 * size - 1), 2 ** (8 * size - 1) - 1)
        self.take("{")
        members, nxt = {}, 0
        while not self.maybe("}"):
            m = self.name()
            if self.maybe("="):
                nxt = self.number()
            if not lo <= nxt <= hi:
                raise Error("%s.%s = %d does not fit in %s" % (n, m, nxt, base[0]))
            if m in members:
                raise Error("%s.%s is declared twice" % (n, m))
            members[m] = nxt
            nxt += 1
            if not self.maybe(","):
                self.take("}")
                break
        self.add(Decl(what="enum", name=n, size=size, kind=kind, members=members))

    def struct(self, attrs, mods):
        n = self.name()
        size = None
        for t, a, args in attrs:
            if a != "StructLayout" or args[0] != "LayoutKind.Sequential":
                raise Error("attribute of struct %s: %s(%s)" % (n, a, args))
            for x in args[1:]:
                m = re.fullmatch(r"Size=(\d+)", x)
                if not m:
                    raise Error("attribute of struct %s: %s" % (n, x))
                size = int(m.group(1))
        self.take("{")
        fields = []
        while not self.maybe("}"):
            at = self.attributes()
            m = self.marshal(at)
            fm = self.modifiers()
            fixed = self.maybe("fixed")
            ty = self.type_()
            if (fixed or ty[1]) and "unsafe" not in mods:
                raise Error("struct %s is not unsafe" % n)
            f = self.name()
            length = None
            if fixed:
                self.take("[")
                length = self.number()
                self.take("]")
            self.take(";")
            if f in [x.name for x in fields] or f == n:
                raise Error("%s.%s is declared twice" % (n, f))
            fields.append(Decl(name=f, ty=ty, marshal=m, fixed=length, public="public" in fm))
        # (The layout of a struct is sequential by default.)
        self.add(Decl(what="struct", name=n, size=size, fields=fields, opaque=len(fields) == 1 and fields[0].name == "OPAQUE" and not fields[0].public))

    def params(self):
        out = []
        self.take("(")
        while not self.maybe(")"):
            m = self.marshal(self.attributes())
            ty = self.type_()
            n = self.name()
            if n in [x.name for x in out]:
                raise Error("two parameters %s" % n)
            out.append(Decl(name=n, ty=ty, marshal=m))
            if not self.maybe(","):
                self.take(")")
                break
        return out

    def delegate(self, attrs, mods):
        conv = [a for t, n, a in attrs if n == "UnmanagedFunctionPointer"]
        if len(conv) != 1 or conv[0][0] not in ("CallingConvention.Winapi", "CallingConvention.Cdecl"):
            raise Error("calling convention of a delegate: %s" % attrs)
        rm = self.marshal(attrs, "return")
        ret = self.type_()
        n = self.name()
        ps = self.params()
        self.take(";")
        if "unsafe" not in mods and (ret[1] or any(p.ty[1] for p in ps)):
            raise Error("delegate %s is not unsafe" % n)
        self.add(Decl(what="delegate", name=n, ret=ret, ret_marshal=rm, params=ps))

    def member(self, unsafe):
        attrs = self.attributes()
        mods = self.modifiers()
        ty = self.type_() if self.peek() != "string" else (self.take(), 0)
        n = self.name()
        if "const" in mods:
            self.take("=")
            val = []
            while not self.maybe(";"):
                val.append(self.toks[self.i])
                self.i += 1
            if n == "RustLib":
                self.lib = val
                return
            if attrs or "public" not in mods:
                raise Error("constant %s: %s %s" % (n, attrs, mods))
            self.member_name(n)
            self.consts[n] = (ty, val)
            return
        imp = [a for t, x, a in attrs if x == "DllImport"]
        if len(imp) != 1 or imp[0][0] != "RustLib" or not {"static", "extern", "public"} <= set(mods):
            raise Error("function %s: %s %s" % (n, attrs, mods))
        entry = n
        for a in imp[0][1:]:
            k, _, v = a.partition("=")
            if k == "EntryPoint":
                entry = v.strip('"')
            elif a not in ("ExactSpelling=true", "CallingConvention=CallingConvention.Cdecl", "CallingConvention=CallingConvention.Winapi"):
                raise Error("function %s: DllImport(%s)" % (n, a))
        rm = self.marshal(attrs, "return")
        ps = self.params()
        self.take(";")
        self.member_name(n)
        self.fns[n] = Decl(what="function", name=n, entry=entry, ret=ty, ret_marshal=rm, params=ps)

    def member_name(self, n):
        if n in self.fns or n in self.consts:
            raise Error("Ffi.%s is declared twice" % n)

    # --- meaning

    def resolve(self):
        if not self.lib:
            raise Error("RustLib is not declared")
        for d in list(self.types.values()) + list(self.fns.values()):
            if d.what == "struct":
                for f in d.fields:
                    self.known(f.ty, d.name, void=False)
                    if f.fixed is not None and (f.ty[1] or f.ty[0] not in PRIMS or PRIMS[f.ty[0]][1] not in FIXED_OK or f.fixed < 1):
                        raise Error("%s.%s: no fixed buffer of %s" % (d.name, f.name, f.ty[0]))
                    self.native(f.ty, f.marshal, "%s.%s" % (d.name, f.name))
            elif d.what != "enum":
                self.known(d.ret, d.name)
                if d.ret != ("void", 0):
                    self.native(d.ret, d.ret_marshal, d.name)
                elif d.ret_marshal:
                    raise Error("%s returns nothing, marshaled" % d.name)
                for p in d.params:
                    self.known(p.ty, d.name, void=False)
                    self.native(p.ty, p.marshal, "%s, parameter %s" % (d.name, p.name))
        for d in self.types.values():
            if d.what == "struct":
                self.layout(d.name)

    def known(self, ty, where, void=True):
        n, stars = ty
        if n == "void" and not stars and not void:
            raise Error("%s: void" % where)
        if n not in PRIMS and n != "void" and n not in self.types:
            raise Error("%s refers to %s, which is not declared" % (where, n))

    def native(self, ty, marshal, where):
        """(size, alignment) of the marshaled form."""
        n, stars = ty
        if stars:
            if marshal:
                raise Error("%s: MarshalAs(%s) of a pointer" % (where, marshal))
            return 8, 8
        if n in PRIMS:
            size, kind = PRIMS[n]
            if marshal:
                ok, size = MARSHAL.get(marshal, ((), 0))
                if kind not in ok:
                    raise Error("%s: MarshalAs(%s) of a %s" % (where, marshal, n))
            return size, size
        d = self.types[n]
        if d.what == "delegate":
            if marshal not in (None, "FunctionPtr"):
                raise Error("%s: MarshalAs(%s) of a delegate" % (where, marshal))
            return 8, 8
        if marshal:
            raise Error("%s: MarshalAs(%s) of a %s" % (where, marshal, n))
        if d.what == "enum":
            return d.size, d.size
        return self.layout(n)

    def layout(self, n, seen=()):
        d = self.types[n]
        if n in seen:
            raise Error("%s contains itself" % n)
        if not hasattr(d, "laid"):
            off, al = 0, 1
            for f in d.fields:
                if not f.ty[1] and f.ty[0] in self.types and self.types[f.ty[0]].what == "struct":
                    s, a = self.layout(f.ty[0], seen + (n,))
                else:
                    s, a = self.native(f.ty, f.marshal, n)
                f.item, f.size = s, s * (f.fixed or 1)
                off = -(-off // a) * a
                f.off = off
                off += f.size
                al = max(al, a)
            size = -(-off // al) * al
            d.laid = (max(size, d.size or 0), al)
        return d.laid

    def constant(self, n, ty, val):
        """Raises unless the value is a constant expression of the type; returns it."""
        name, stars = ty
        if stars or name not in PRIMS:
            raise Error("constant %s of type %s" % (n, name))
        kind = PRIMS[name][1]
        s = "".join(v for _, v in val)
        if kind == "bool":
            if s not in ("true", "false"):
                raise Error("constant %s = %s" % (n, s))
            return s == "true"
        if kind[0] == "f":
            m = re.fullmatch(r"(-?\d+(\.\d+)?([eE][-+]?\d+)?)([fFdD]?)", s)
            if not m:
                raise Error("constant %s = %s" % (n, s))
            integral = not m.group(2) and not m.group(3) and not m.group(4)
            if kind == "f4" and not integral and m.group(4) not in ("f", "F"):
                raise Error("constant %s: no implicit conversion of the double %s to float" % (n, s))
            return float(m.group(1))
        m = re.fullmatch(r"-?\d+", s)
        if not m:
            raise Error("constant %s = %s" % (n, s))
        v, size = int(s), PRIMS[name][0]
        if kind in ("un", "in"):
            # nint, nuint constants are those that fit in 32 bits.
            size = 4
        lo, hi = (0, 2 ** (8 * size) - 1) if kind[0] == "u" else (-2 ** (8 * size - 1), 2 ** (8 * size - 1) - 1)
        if not lo <= v <= hi:
            raise Error("constant %s = %s does not fit in %s" % (n, s, name))
        return v
