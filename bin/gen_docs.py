#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CATALOG, NOT_APPLICABLE
from props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for i in sorted(set(PROPS) | set(NOT_APPLICABLE)):
            c = CATALOG[i]
            f.write(json.dumps({"id": i, "title": c["title"], "statement": c["statement"],
                                "quantifier": c["quantifier"], "why_tests_cant": c["why_tests_cant"],
                                "anchors": c["anchors"]}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 bin/setup.py",
        "checks": [{"property": i, "quick_cmd": "python3 bin/check.py " + i,
                    "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
                    "technique": CATALOG[i]["technique"], "level": PROPS[i]["level"],
                    "level_note": CATALOG[i]["note"]} for i in sorted(PROPS)],
        "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NOT_APPLICABLE.items())],
        "notes": "No hooks in /repo. Properties and this file are generated by bin/gen_docs.py.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
