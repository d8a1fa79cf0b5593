#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json
from config import PROPS, NOTES, LEVELS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    verus = c.get("verus")
    checks.append(dict(
        property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
        evidence_file="evidence/%s.json" % i,
        technique="contract-based deductive verification: " + ("Verus contracts and loop invariants on the extracted functions, and " if verus else "")
        + ("runs on the compiled code which look for a failing schedule" if i == "C27" else "Kani proof obligations on the compiled code"),
        level=LEVELS.get(i, "proof"), level_note=NOTES[i]))
json.dump(dict(
    version=1, setup_cmd="python3 setup.py",
    hooks=dict(guard='rustc cfg lcms2_verif="profile" | "codec" | "context" | "plugin", off by default',
               enable="RUSTFLAGS='--cfg lcms2_verif=\"profile\"' and so on, set by check.py for the crate the obligations are built with",
               source_commits=["6a7fd81", "4b3a667", "a6a8e0a"]),
    checks=checks,
    not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()],
    notes="Everything is explained in DESIGN.md. Findings are listed in known-findings.txt.",
), open("MANIFEST.json", "w"), indent=1)
