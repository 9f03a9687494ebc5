"""C04: all interleavings of small programs over shared handles, on the real code (see harness/sched, harness/race)."""
import os
from concurrent.futures import ThreadPoolExecutor

import driver

TRIPLE = "x86_64-unknown-linux-gnu"
PARTS = 8


def build(label, features):
    # (A directory per configuration, so that both build at the same time.)
    d = driver.build("race-mc", features, "ship", extra=["--target", TRIPLE], env=dict(RUSTC_WRAPPER=os.path.join(driver.HERE, "lib", "tsan_rustc.sh")),
                     target=os.path.join(driver.BUILD, "target-tsan-" + label))
    return os.path.join(os.path.dirname(d), TRIPLE, "ship", "race-mc")


def check(prop, tier):
    configs = [("std", []), ("stabby", ["stabby"])]
    driver.stage.stage()
    with ThreadPoolExecutor(PARTS) as pool:
        binaries = list(pool.map(lambda c: build(*c), configs))
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, distinct_outcomes=0, exhaustive=True, programs=0,
                   schedules_with_preemptions=0, longest_schedule=0, phases=[], samples=[])
        for (label, _), binary in zip(configs, binaries):
            runs = [pool.submit(driver.explore, binary, prop, tier, label, None, ["--part", "%d/%d" % (i, PARTS)]) for i in range(PARTS)]
            phases = {}
            for r in [x.result() for x in runs]:
                cov["programs"] += r["programs"]
                cov["states"] += r["points"]
                cov["transitions"] += r["points"]
                cov["traces_validated_against_impl"] += r["schedules"]
                cov["distinct_outcomes"] += r["distinct_outcomes"]
                cov["schedules_with_preemptions"] += r["preempted"]
                cov["longest_schedule"] = max(cov["longest_schedule"], r["longest"])
                for p in r["phases"]:
                    q = phases.setdefault(p["phase"], dict(config=label, phase=p["phase"], programs=0, schedules=0, seconds=0))
                    for k in ("programs", "schedules", "seconds"):
                        q[k] = round(q[k] + p[k], 1)
            cov["phases"] += phases.values()
    for p in cov["phases"]:
        if not p["programs"] or not p["schedules"]:
            raise driver.CheckError("phase %s explored nothing" % p["phase"])
    cov["samples"] = ["%(config)s/%(phase)s: %(programs)d programs, %(schedules)d schedules" % p for p in sorted(cov["phases"], key=lambda p: -p["schedules"])[:12]]
    cov["bounds"] = ("programs: 2 threads of 1-2 operations (thorough: 3), 3 threads of 1 (thorough: 2); preemptions: 2-3 (thorough: 1-5); a thread can be "
                     "preempted before every atomic operation and futex call; sequentially consistent interleavings, with C11 happens-before for data races")
    return cov
