"""C16: the generated Python declarations (for cffi) against the ABI rustc implements, over the grammar of C13."""
import json
import os
import shutil

import abi
import c13
import driver
import sf
import types_grammar
from abi import Arr, Enum, Prim, Ty, closure_of, every, kind_of

RUNNER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cffi_run.py")


def scalars(t):
    """How many scalars a value consists of (arrays counted in full)."""
    f = t.fields()
    if f is None:
        return 1
    if isinstance(t, Arr):
        return t.n * scalars(t.t)
    return sum(scalars(x) for _, _, x in f)


def leaf(l, off, size):
    d = dict(path=l.cpath, spec=l.ty.c(), kind=kind_of(l.ty), size=size, off=off, signed=isinstance(l.ty, Prim) and l.ty.signed)
    return d


LIT = dict(b=lambda i: True, f=lambda i: i + 3.5, u=lambda i: 20 + i, i=lambda i: -20 - i)


def request(batch, so, facts, headers, dir_, seeds, api):
    types, enums = [], []
    for t in [t for t in closure_of(batch.types) if t.pod]:
        size, align = facts["T"][t.key]
        ls = []
        for i, l in enumerate(t.leaves()):
            d = leaf(l, *facts["L"][t.key, i])
            if isinstance(l.ty, Enum):
                d["values"] = [facts["E"][l.ty.key, v] for v, _ in l.ty.variants]
            ls.append(d)
        types.append(dict(key=t.key, spec=t.c(), size=size, align=align, full=bool(batch.full(t)), leaves=ls, scalars=scalars(t)))
    for e in {x.key: x for t in closure_of(batch.types) for x in every(t) if isinstance(x, Enum)}.values():
        enums.append(dict(key=e.key, values=[(e.enumerator(v), facts["E"][e.key, v]) for v, _ in e.variants]))
    fns = []
    for name, params, ret in getattr(batch, "fns", None) or []:
        # (As in types_grammar.functions.)
        lit = lambda p, i: LIT[p.kind[0]](i)
        decl = "%s" % ret.c("(*)(%s)" % (", ".join(p.c() for _, p in params) or "void"))
        if name == "in_a_module":
            fns.append((name, decl, [4], 5))
        else:
            r = None if isinstance(ret, abi.Void) else lit(ret, len(params))
            fns.append((name, decl, [lit(p, i) for i, (_, p) in enumerate(params)], r))
    consts = []
    for name, how, ty, v in getattr(batch, "consts", None) or []:
        if ty == "str":
            consts.append((name, "str", json.loads('"%s"' % v.replace("\\'", "'"))))
        elif ty == "bool":
            consts.append((name, "int", int(v == "true")))
        elif ty in ("f32", "f64"):
            import struct
            f = float(v)
            consts.append((name, "float", struct.unpack("f", struct.pack("f", f))[0] if ty == "f32" else f))
        else:
            consts.append((name, "int", v))
    sizes = [(f, int(facts["K"][k][0]), int(facts["K"][k][1])) for f, k in (("new_shape", "Shape"), ("new_tag", "Tag")) if k in facts["K"]]
    return dict(header=headers[2], so=so, dir=dir_, types=types, enums=enums, fns=fns, consts=consts, sizes=sizes, seeds=seeds, api=api, virtual=batch.name == "virtual")


def check_batch(base, batch, root, seeds):
    dir_ = os.path.join(root, batch.name)
    so, facts, headers = c13.make(base, batch, dir_)

    def bad(what, log=()):
        keep = os.path.join(driver.HERE, "replays", "C16_" + batch.name)
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        for f in ("lib.rs", "vp.cffi", "vp.h"):
            if os.path.exists(os.path.join(dir_, f)):
                shutil.copy(os.path.join(dir_, f), keep)
        raise driver.Violation("%s: %s" % (batch.name, what), dict(log=list(log), files=keep))
    open(os.path.join(dir_, "vp.cffi"), "w").write(headers[2])
    open(os.path.join(dir_, "vp.h"), "w").write(headers[0])
    if headers[2].startswith("!"):
        bad("generating the Python header failed: %s" % headers[2][1:])
    q = request(batch, so, facts, headers, dir_, seeds, True)
    r = driver.run(["python3-vt", RUNNER], input=json.dumps(q))
    if r.returncode < 0:
        bad("exchanging values through cffi killed the process (signal %d)" % -r.returncode, r.stderr.splitlines()[-10:])
    if r.returncode != 0 or not r.stdout.strip():
        raise driver.CheckError("cffi_run failed on %s:\n%s" % (batch.name, r.stderr[-3000:]))
    a = json.loads(r.stdout.splitlines()[-1])
    if "bad" in a:
        bad(a["bad"])
    res = dict(batch=batch.name, types=len(q["types"]), leaves=sum(len(t["leaves"]) for t in q["types"]), enums=len(q["enums"]), functions=headers[2].count(");"),
               exchanges=a["cases"], values_compared=a["checks"], header_lines=headers[2].count("\n"))
    shutil.rmtree(dir_, ignore_errors=True)
    return res


def check(prop, tier):
    base = sf.Base(["headers", "async"])
    root = os.path.join(driver.BUILD, "gen", prop)
    shutil.rmtree(root, ignore_errors=True)
    batches = types_grammar.batches(tier)
    only = os.environ.get("VP_ONLY")
    if only:
        batches = [b for b in batches if b.name.startswith(only)]
    try:
        res = sf.parallel(lambda b: check_batch(base, b, root, 4 if tier == "quick" else 100), batches)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
    tot = lambda k: sum(r[k] for r in res)
    return dict(states=tot("types"), transitions=tot("values_compared"), traces_validated_against_impl=tot("exchanges"),
                distinct_outcomes=tot("leaves"), functions=tot("functions"), exhaustive=True,
                samples=[json.dumps(r) for r in res[:12]], batches=res)
