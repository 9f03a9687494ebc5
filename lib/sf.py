"""Compiles generated programs against /repo's safer_ffi with rustc alone (much faster than a cargo package each)."""
import concurrent.futures
import json
import os
import subprocess

import driver
import stage

JOBS = min(8, os.cpu_count() or 4)


class Base:
    """safer_ffi built by cargo with the given features and profile."""

    def __init__(self, features=(), profile="ship"):
        stage.stage()
        env = driver.cargo_env()
        cmd = ["cargo", "build", "--offline", "--locked", "-q", "-p", "sfbase", "--profile", profile, "--message-format=json"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = driver.run(cmd, cwd=driver.HARNESS, env=env)
        if r.returncode != 0:
            raise driver.CheckError("build of safer_ffi (%s) failed:\n%s" % (features, "\n".join(r.stderr.splitlines()[-60:])))
        self.externs = {}
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        self.externs[m["target"]["name"].replace("-", "_")] = f
        self.deps = os.path.join(driver.TARGET, "debug" if profile == "dev" else profile, "deps")
        self.debug_assertions = profile == "dev"
        self.env = env

    def cmd(self, src, out, kind="bin", extra=(), crates=("safer_ffi",), name=None, edition="2021"):
        c = ["rustc", "--edition", edition, "--crate-type", kind, "-A", "warnings", "-L", "dependency=" + self.deps,
             "-C", "debug-assertions=" + ("on" if self.debug_assertions else "off"), "-C", "overflow-checks=off"]
        if name:
            c += ["--crate-name", name]
        for x in crates:
            c += ["--extern", "%s=%s" % (x, self.externs[x])]
        return c + list(extra) + ["-o", out, src]

    def rustc(self, src, out, **kw):
        timeout = kw.pop("timeout", 600)
        return driver.run(self.cmd(src, out, **kw), env=dict(self.env, CARGO_CRATE_NAME="vp", CARGO_PKG_NAME="vp"), timeout=timeout)


def must(r, what):
    if r.returncode != 0:
        raise driver.CheckError("%s failed (%s):\n%s\n%s" % (what, r.returncode, r.stdout[-3000:], r.stderr[-6000:]))
    return r


def parallel(f, items, jobs=JOBS):
    """f over items on several threads (each runs compilers and programs as subprocesses); results in order."""
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, items))
