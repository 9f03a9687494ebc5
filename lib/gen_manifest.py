"""Rewrites /verif/MANIFEST.json from lib/check.py's table."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from manifest_text import TEXT, NOT_APPLICABLE, NOTES

m = dict(
    version=1,
    setup_cmd="python3 lib/stage.py",
    checks=[
        dict(
            property=p,
            quick_cmd="python3 lib/check.py %s --tier quick" % p,
            thorough_cmd="python3 lib/check.py %s --tier thorough" % p,
            technique=TEXT[p][0],
            level=check.CHECKS[p]["level"],
            level_note=TEXT[p][1],
        )
        for p in sorted(check.CHECKS)
    ],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items()) if p not in check.CHECKS],
    notes=NOTES,
)
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
