"""Common machinery of the checks: staging, building, running explorers, evidence, verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

import stage

HERE = stage.HERE
BUILD = stage.BUILD
TARGET = os.environ.get("CARGO_TARGET_DIR") or os.path.join(BUILD, "target")
HARNESS = os.path.join(HERE, "harness")
TOOLCHAIN = "1.72.1"


def cargo_env(**extra):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        RUSTC_BOOTSTRAP="1",  # as in the project's CI
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=TARGET,
        CARGO_INCREMENTAL="0",
    )
    env.update(extra)
    return env


class CheckError(Exception):
    """Not a verdict: the check itself could not do its work."""


class Violation(Exception):
    def __init__(self, what, case):
        super().__init__(what)
        self.what, self.case = what, case


def run(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)


def build(package, features=(), profile="dev", extra=(), env=None, target=None):
    """Builds a harness crate against /repo's current tree; returns the directory of its products."""
    stage.stage()
    e = cargo_env(**(env or {}))
    if target:
        e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "-p", package, "--profile", profile, *extra]
    if features:
        cmd += ["--features", ",".join(features)]
    r = run(cmd, cwd=HARNESS, env=e)
    if r.returncode != 0:
        raise CheckError("build of %s failed:\n%s" % (package, "\n".join(r.stderr.splitlines()[-60:])))
    return os.path.join(e["CARGO_TARGET_DIR"], "debug" if profile == "dev" else profile)


def parse(out):
    res = {"log": []}
    for line in out.splitlines():
        if line.startswith("RESULT "):
            res["result"] = json.loads(line[7:])
        elif line.startswith("CASE "):
            m = re.match(r"CASE phase=(\S+) top=(\d+) choices=(\S+)", line)
            res["case"] = m.groups()
        elif line.startswith("LOG "):
            res["log"].append(line[4:])
        elif line.startswith("BAD "):
            res["bad"] = line[4:]
        elif line.startswith("DIED "):
            m = re.match(r"DIED (\w+) (\d+) phase (\S+)(?: top (\d+) choices ([\d,]*))?", line)
            if m:
                res["died"] = m.groups()
    return res


def explore(binary, prop, tier, label, timeout=None, extra=(), env=None):
    """Runs an explorer. Returns its result; raises Violation or CheckError."""
    timeout = timeout or (600 if tier == "quick" else 6 * 3600)
    cmd = [binary, prop, tier, *extra]
    e = dict(os.environ, RUST_BACKTRACE="0", **(env or {}))
    try:
        r = run(cmd, timeout=timeout, env=e, cwd=BUILD)
    except subprocess.TimeoutExpired:
        raise CheckError("%s ran out of time" % label)
    p = parse(r.stdout)
    if r.returncode == 0 and "result" in p:
        return p["result"]
    if r.returncode == 1 and "bad" in p:
        phase, top, choices = p["case"]
        raise Violation(p["bad"], dict(config=label, phase=phase, top=int(top), choices=choices, log=p["log"],
                                       replay=[binary, prop, tier, *extra, "--replay", phase, top, choices]))
    if "died" in p or r.returncode < 0:
        kind, num, phase, top, choices = p.get("died", ("signal", str(-r.returncode), None, None, None))
        what = "the process died (%s %s)" % (kind, num)
        if phase and top is not None:
            rp = [binary, prop, tier, *extra, "--replay", phase, top, choices or "-"]
            try:
                again = run(rp, timeout=300, env=e, cwd=BUILD)
                log = [l.strip() for l in again.stdout.splitlines()]
                rc = again.returncode
            except subprocess.TimeoutExpired:
                log, rc = [], "timeout"
            if rc != 0:
                raise Violation(what, dict(config=label, phase=phase, top=int(top), choices=choices or "-", log=log, replay=rp))
        # Not reproduced alone (corruption by earlier cases, say): the whole run must die again.
        try:
            r2 = run(cmd, timeout=timeout, env=e, cwd=BUILD)
        except subprocess.TimeoutExpired:
            raise CheckError("%s died once, then ran out of time" % label)
        if r2.returncode not in (0, 3) :
            p2 = parse(r2.stdout)
            raise Violation(p2.get("bad", what), dict(config=label, phase=phase, log=p2["log"] or r2.stdout.splitlines()[-5:], replay=cmd))
    raise CheckError("%s ended with %s:\n%s\n%s" % (label, r.returncode, r.stdout[-2000:], r.stderr[-3000:]))


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def merge(results):
    """Sums up the coverage of several explorer results [(label, result)]."""
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, distinct_outcomes=0, samples=[], phases=[], exhaustive=True)
    for label, r in results:
        for ph in r["phases"]:
            cov["states"] += ph["states"]
            cov["transitions"] += ph["transitions"]
            cov["traces_validated_against_impl"] += ph["executions"]
            cov["distinct_outcomes"] += ph["outcomes"]
            cov["exhaustive"] &= ph["exhaustive"]
            s = [x for x in ph.pop("samples") if x]
            cov["samples"] += ["%s/%s: %s" % (label, ph["phase"], x[:400]) for x in s[-1:]]
            ph["config"] = label
            cov["phases"].append(ph)
    cov["samples"] = cov["samples"][-12:] or ["(none)"]
    return cov


def main(checks):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    check = checks[prop]
    ev = dict(property=prop, tier=tier, seed=seed, level=check["level"], coverage={"samples": []}, assumptions=check.get("assumptions", []))
    code = 0
    try:
        ev["coverage"] = check["run"](prop, tier)
        ev["violations"] = 0
    except Violation as v:
        code = 1
        ev["violations"] = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s.json" % prop)
        json.dump(dict(property=prop, what=v.what, **v.case), open(path, "w"), indent=1, default=str)
        for l in v.case.get("log", [])[:40]:
            print("    " + str(l))
        print("    " + v.what)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        if check["level"] == "model_checking":
            ev["coverage"] = dict(states=0, transitions=0, traces_validated_against_impl=1, samples=[v.what])
        else:
            ev["coverage"] = dict(evaluations=1, distinct_nontrivial=1, rule="stopped at a violation", samples=[v.what])
    except CheckError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        code = 3
        if os.path.exists(os.path.join(HERE, "evidence", prop + ".json")):
            os.unlink(os.path.join(HERE, "evidence", prop + ".json"))
        sys.exit(code)
    if code == 0:
        for f in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
    ev["wall_s"] = round(time.time() - start, 2)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("%s %s: %s in %.1f s (%s)" % (prop, tier, "held on everything explored" if code == 0 else "VIOLATED", ev["wall_s"],
          ", ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, (int, bool)))))
    sys.exit(code)
