#!/usr/bin/env python3
"""python3 lib/check.py PROPERTY [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c04
import c12
import c13
import c14
import c15
import c16
import c17
import c19
import driver
from driver import build, explore, merge


def explorer(package, configs, binary=None):
    """A check that is one explorer, built in several configurations [(label, features, profile)]."""
    def go(prop, tier):
        results = []
        for label, features, profile in configs:
            d = build(package, features, profile)
            results.append((label, explore(os.path.join(d, binary or package), prop, tier, label)))
        return merge(results)
    return go


BYTES = explorer("bytes-mc", [("std", [], "ship"), ("stabby", ["stabby"], "ship")])

CHECKS = {
    "C01": dict(level="model_checking", run=BYTES),
    "C02": dict(level="model_checking", run=BYTES),
    "C03": dict(level="model_checking", run=BYTES),
    "C04": dict(level="model_checking", run=c04.check),
    "C05": dict(level="model_checking", run=explorer("closures-mc", [("std", [], "ship")])),
    "C06": dict(level="model_checking", run=explorer("virt-mc", [("std", [], "ship")])),
    "C07": dict(level="model_checking", run=explorer("futures-mc", [("std", [], "ship")])),
    "C08": dict(level="model_checking", run=explorer("owned-mc", [("std", [], "ship")])),
    "C09": dict(level="model_checking", run=explorer("owned-mc", [("std", [], "ship")])),
    "C10": dict(level="model_checking", run=explorer("valid-mc", [("release", [], "ship"), ("debug, stabby", ["stabby"], "dev")])),
    "C11": dict(level="model_checking", run=explorer("valid-mc", [("std", [], "ship"), ("stabby", ["stabby"], "ship")])),
    "C12": dict(level="model_checking", run=c12.check),
    "C13": dict(level="model_checking", run=c13.check),
    "C14": dict(level="model_checking", run=c14.check),
    "C15": dict(level="model_checking", run=c15.check),
    "C16": dict(level="model_checking", run=c16.check),
    "C17": dict(level="model_checking", run=c17.check),
    "C19": dict(level="model_checking", run=c19.check),
}

if __name__ == "__main__":
    driver.main(CHECKS)
