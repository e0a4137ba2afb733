#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: python3 tools/manifest.py > MANIFEST.json

Lists every property that the script /verif/check knows."""
import json, re, runpy, subprocess, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = set(re.findall(r"C\d\d", open(here + "/check").read()))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
notes = runpy.run_path(here + "/tools/levels.py")["L"]
commits = subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hooks"],
    capture_output=True, text=True).stdout.split()

checks, na = [], []
for p in props:
    i = p["id"]
    if i in known:
        technique, note = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": "property-based testing: " + technique,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "check under construction"})

print(json.dumps({
    "version": 1,
    "setup_cmd": "./check --build",
    "hooks": {
        "guard": "systre_verif",
        "enable": "RUSTFLAGS=\"--cfg systre_verif\" (set by /verif/check for the checks that need it)",
        "source_commits": commits,
    },
    "checks": checks,
    "not_applicable": na,
}, indent=1))
