"""Which of many small programs does rustc accept? (Many at once: rejected ones are taken out until the rest compiles.)"""
import json
import os

import driver
import sf


class Program:
    """What the crate at hand compiles to a module of its own; expect: True (accepted), False (rejected)."""

    def __init__(self, key, code, expect, family=""):
        self.key, self.code, self.expect, self.family = key, code, expect, family
        self.finding = None  # the known finding that a wrong verdict here is an instance of


class PreludeRejected(Exception):
    """The code that all programs build on is rejected."""


def judge(base, programs, root, prelude, crates=("safer_ffi",), emit="obj", attempts=40, name="judge", features=""):
    """{key: None if accepted, else the first error}."""
    os.makedirs(root, exist_ok=True)
    src, out = os.path.join(root, name + ".rs"), os.path.join(root, name + ".out")
    verdict, left = {}, list(programs)
    for _ in range(attempts):
        text, where = features + "#![allow(warnings)]\npub mod prelude {\n%s\n}\n" % prelude, []
        for i, p in enumerate(left):
            body = "pub mod m%d { pub use super::prelude::*;\n%s\n}\n" % (i, p.code)
            first = text.count("\n") + 1
            text += body
            where.append((first, text.count("\n")))
        open(src, "w").write(text)
        r = driver.run(base.cmd(src, out, kind="lib", crates=crates, extra=["--emit=" + emit, "--error-format=json", "-C", "opt-level=0", "-C", "codegen-units=8"], name=name), env=dict(base.env, CARGO_CRATE_NAME="vp", CARGO_PKG_NAME="vp"), timeout=800)
        errors = []
        for line in r.stderr.splitlines():
            if line.startswith("{"):
                m = json.loads(line)
                if m.get("level") in ("error", "error: internal compiler error"):
                    errors.append(m)
        if r.returncode == 0:
            for p in left:
                verdict[p.key] = None
            os.remove(src)
            if os.path.exists(out):
                os.remove(out)
            return verdict
        bad, prelude_end = {}, where[0][0] - 1
        for m in errors:
            for line in places(m, src):
                hit = [i for i, (a, b) in enumerate(where) if a <= line <= b]
                if hit:
                    bad.setdefault(hit[0], "%s%s" % ((m.get("code") or {}).get("code", "") + ": " if m.get("code") else "", m["message"][:200]))
                    break
        if not bad:
            early = [m for m in errors if any(line <= prelude_end for line in places(m, src))]
            if early:
                raise PreludeRejected("%s" % "\n".join(m.get("rendered", "")[:1500] for m in early[:3]))
            raise driver.CheckError("%s: cannot tell which program fails:\n%s" % (name, "\n".join(m.get("rendered", "")[:600] for m in errors[:4]) or r.stderr[-3000:]))
        for i, msg in bad.items():
            verdict[left[i].key] = msg
        left = [p for i, p in enumerate(left) if i not in bad]
    raise driver.CheckError("%s: no end to the errors" % name)


def places(m, src):
    """The lines of the generated file that an error is about, the most relevant ones first."""
    for s in sorted(m["spans"], key=lambda s: not s["is_primary"]):
        while s:
            if s["file_name"] == src:
                yield s["line_start"]
            s = (s.get("expansion") or {}).get("span")
    for c in m.get("children", []):
        yield from places(c, src)
