#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = "path-sensitive abstract interpretation of MIR (value numbering, difference bounds, inductive loop summaries)"
NOTE = ("Sound for the listed obligations up to the trusted base: rustc's MIR, the library models in sa/models.py, no arithmetic "
        "overflow, no allocation failure. Obligations are per-operation contracts for arbitrary states satisfying the representation "
        "invariant; that they compose over histories is argued in DESIGN.md. Constructs the analysis cannot follow are reported as "
        "undecided in the evidence, not as violations.")

# property -> (technique, level note) overrides; None: not claimed (reason)
SPECIAL = {}
NA = {
    "C27": "Asymptotic cost and memory bounds are quantitative runtime properties; no rule over the source decides amortised time or "
           "peak memory, and syntactic stand-ins (no nested loops, no allocation) would alarm on behaviour-preserving edits.",
}


def main():
    from sa import core, specs  # noqa: F401
    have = set()
    for r in core.RULES:
        have.update(r.props)
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
        elif p in have:
            t, n = SPECIAL.get(p, (TECH, NOTE))
            checks.append({
                "property": p,
                "quick_cmd": "python3 check.py %s --tier quick" % p,
                "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": t,
                "level": "other",
                "level_note": n,
            })
        else:
            na.append({"property": p, "reason": "Not claimed yet: no rule decides it so far."})
    m = {
        "version": 1,
        "setup_cmd": "cd driver && cargo +nightly build --release --offline",
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
